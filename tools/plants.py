"""Planted bugs (see plant.py)."""
PLANTS = []


def plant(id, prop, breaks, needs, edits, demo=None, py=None):
    p = {"id": id, "property": prop, "breaks": breaks, "needs": needs,
         "edits": edits}
    if demo:
        p["demo"] = [(d[0], d[1], d[2]) if len(d) == 3 else
                     (["-p", "-e", d[0]], "", d[1]) for d in demo]
    if py:
        p["py"] = py
    PLANTS.append(p)


plant("s01-newline-char", "C01",
      "a newline is no longer a character literal",
      "a source text with a quote just before a line break",
      [("scanning.py", """charRgx = re.compile(r"'(.|\\n)")""",
        """charRgx = re.compile(r"'.")""")],
      [("x:'\n#x", "1\n"), ("\"ab\nc\"^'\n", "[\"ab\";\"c\"]\n")])
plant("s02-tab-comment", "C02",
      "a tab starts a comment like two spaces do",
      "code after a tab on the same line",
      [("scanning.py", """r'(\\s*\\n\\s*;| {2}).*'""",
        """r'(\\s*\\n\\s*;| {2}|\\t).*'""")],
      [("x:3\tx+1", "4\n"), ("I 1{\n\tP 5\n}\n6", "5\n6\n")])
plant("s03-unary-before-assign", "C03",
      "a unary operator takes the left side of a compute-and-assign whose "
      "operator binds tighter",
      "a unary operator before a target whose assigning operator binds tighter",
      [("parsing.py", """        if tokenList[1] == ":":
            # The next token is the : meta-operator, which lowers the
            # precedence
            precedence = assignOp.precedence
        if precedence""", """        if precedence""")],
      [("x:[4;5] -y@:1", "()\n") if False else
       ("x:[4;5] y:x@:1 [x y]", "[5;5]\n"), ("x:3 y:-x E:2 [x y]", "[3;9]\n")])
plant("s04-incomplete-fold", "C04",
      "a program that ends after a fold meta-operator is malformed, not "
      "incomplete",
      "the text ending right after $ or \\$",
      [("parsing.py", """                err.die(f"Missing operator for {metaop} meta-operator",
                        errorClass=IncompleteSyntax)""",
        """                err.die(f"Missing operator for {metaop} meta-operator",
                        errorClass=BadSyntax)""")],
      [(["-R"], "x:$\n+[1 2]\nx\n",
        "Pip 1.2.0\nType ;help for more information.\n>> .. 3\n>> 3\n>> Bye!\n")])
plant("s05-unparse-else", "C05",
      "an empty else branch loses its EL when a function is printed",
      "a function with a conditional that has an empty else part, or none",
      [("parsing.py", """                        code += " EL"
                        argtype = "CODE\"""", """                        if arg:
                            code += " EL"
                        argtype = "CODE\"""")],
      [("f:{I a {P 1} x:2} RP f", "{I a {P 1} EL {}; x : 2}\n"),
       ("f:{x:5 I a{x:6}} g:V RP f RP[(f 1)(g 1)]", "[();()]\n")])
plant("s06-repr-backslash", "C06",
      "a backslash is not doubled in the representation of a string that "
      "also contains a double quote",
      "a text with both a double quote and a backslash",
      [("ptypes.py", """return r'\\"' + self._value.replace("\\\\", r"\\\\") + r'\\"'""",
        """return r'\\"' + self._value + r'\\"'""")],
      [("x:'\".'\\.'\\.\"b\" (V RP x)Q x", "1\n"),
       ("x:'\".'\\.\"a\" (V RP x)Q x", "1\n")])
plant("s07-exponent", "C07",
      "only two digits of the exponent of a number are used",
      "numbers of at least 1e100 or smaller than 1e-99",
      [("ptypes.py", """exp = r"(?:e[+-]\\d+)\"""",
        """exp = r"(?:e[+-]\\d\\d)\"""")],
      [("x:1.5*\"1e+120\" [x+0 x>\"1e+20\"]", "[\"1.5e+120\";1]\n"),
       ("x:\"2.5e-150\"*2 x", "5e-150\n")])
plant("s08-scan-empty", "C11",
      "folding an empty string gives the empty string instead of the "
      "operator's identity",
      "a fold over an empty string",
      [("execution.py", """                return ptypes.toPipType(operator.default)
            else:
                iterable = list(iterable)""",
        """                return (ptypes.toPipType(operator.default)
                        if isinstance(iterable, (List, Range))
                        else iterable)
            else:
                iterable = list(iterable)""")],
      [("[$+\"\" $*\"\" $+[]]", "[0;1;0]\n")])
plant("s09-target-twice", "C13",
      "a compute-and-assign evaluates its target twice",
      "a target expression that has an effect or is random",
      [("execution.py", "result = self.evaluate([normalOp, lval] + args[1:])",
        "result = self.evaluate([normalOp] + args)")],
      [("i:0 l:[5;6;7] l@U i+:10 RP[i l]", "[1;[5;16;7]]\n")])
plant("s10-destructure-rest", "C20",
      "targets without a value in a destructuring assignment keep their "
      "old value instead of becoming nil",
      "fewer values than targets, and targets that had a value",
      [("execution.py", """                                 "destructuring assignment of", rval)
                    self.assign(lvalItem, nil)""",
        """                                 "destructuring assignment of", rval)""")]
      if False else
      [("execution.py", """                    self.assign(lvalItem, nil)
                else:""", """                    if not self.isDefined(str(lvalItem.base)):
                        self.assign(lvalItem, nil)
                else:""")],
      [("x:5 [i x]:[1] [i x]", "[1;()]\n")])
plant("s11-loop-round", "C23",
      "a loop count with a fraction is rounded instead of truncated",
      "a loop count with a fractional part above one half",
      [("execution.py", """        elif isinstance(count, Scalar):
            count = int(count)
        elif""", """        elif isinstance(count, Scalar):
            count = round(count.toNumber())
        elif""")],
      [("L 2.7{y.:1} y", "11\n"), ("L\"1.5x\"{y.:1} y", "1\n")])
plant("s12-stale-groups", "C24",
      "groups of an earlier match stay visible after a match with fewer "
      "groups",
      "two matches, the later one with fewer groups",
      [("execution.py", """            if i < len(groups):
                self.assign(matchVar, groups[i])
            else:
                self.assign(matchVar, nil)""",
        """            if i < len(groups):
                self.assign(matchVar, groups[i])""")],
      [("\"ab\"~`(.)(.)` \"c\"~`(.)` [$1 $2]", "[\"c\";()]\n")])
plant("s13-slice-two-before", "C17",
      "a slice of a list starting more than a whole length before its "
      "beginning is wrong",
      "a start at or below minus twice the length",
      [("ptypes.py", """            while start < 0:
                repList = self._value + repList
                start += length
                stop += length
            while stop > len(repList):""",
        """            if start < 0:
                repList = self._value + repList
                start += length
                stop += length
            while stop > len(repList):""")],
      [("[1;2]@((-5),1)", "[2;1;2;1]\n"), ("[1;2]@((-3),1)", "[2;1]\n")])
plant("s14-range-slice-clamp", "C17",
      "a slice of a range whose start lies before the beginning is cut off "
      "instead of wrapping around",
      "a range sliced from below minus its length to an end within it",
      [("ptypes.py", "if start >= -length and stop <= length:",
        "if stop <= length:")],
      [("(5,8)@((-4),2)", "[7;5;6]\n")])
plant("s15-block-equal", "C16",
      "functions with equal results but different statements are equal",
      "two multi-statement functions with the same last expression",
      [("ptypes.py", """                and self._statements == rhs._statements
                and self._returnExpr""", """                and len(self._statements) == len(rhs._statements)
                and self._returnExpr""")],
      [("[{P 1 a}]Q[{P 2 a}]", "0\n"), ("[{P 1 a}{P 1 a}]Q[{P 1 a}{P 1 a}]", "1\n")])
plant("s16-ampersand-after-backslash", "C31",
      "an ampersand after an escaped backslash is no longer the match",
      "a replacement with a doubled backslash before the ampersand",
      [("ptypes.py", """        pyReplace = re.sub(r"(?<!\\\\)((?:\\\\{2})*)&",
""", """        pyReplace = re.sub(r"(?<!\\\\)()&",
""")],
      [("\"aXb\"R`X``<\\\\\\\\&>`", "a<\\\\X>b\n"), ("\"aXb\"R`X``<\\&&>`", "a<&X>b\n")])
plant("s17-flags-cancel", "C31",
      "joining two patterns with the same flag drops the flag",
      "two patterns that both have a flag, joined by +",
      [("ptypes.py", """        return Pattern(f"{self._raw}{other._raw}",
                       self._flags | other._flags)""",
        """        return Pattern(f"{self._raw}{other._raw}",
                       self._flags ^ other._flags)""")],
      [("\"AB\"~(-`a`+-`b`)", "AB\n"), ("\"Ab\"~(-`a`+`b`)", "Ab\n")])
plant("s18-push-pattern", "C21",
      "pushing back onto a pattern that is a variable's value gives text",
      "pushing onto a pattern",
      [("execution.py", """        elif isinstance(iterVal, (Scalar, Pattern)):
            iterVal = self.CAT(iterVal, Scalar(item))""",
        """        elif isinstance(iterVal, (Scalar, Pattern)):
            iterVal = self.CAT(Scalar(iterVal), Scalar(item))""")],
      [("x:`a.`;x PB `5` RP[x]", "[`a.5`]\n"), ("x:`a`;x PB 5 RP[x]", "[`a5`]\n")])
plant("s19-group-fraction", "C28",
      "grouping from right to left by a fractional size rounds wrongly",
      "a negative group size with a fraction",
      [("execution.py", """                    startIndex = max(index + jump, 0)
                    chunk = iterable[math.ceil(startIndex):math.ceil(index)]
                    result.append(chunk)
                    index += jump
                return result
            else:
                self.err.warn("Cannot GROUP into slices of size 0")""",
        """                    startIndex = max(index + jump, 0)
                    chunk = iterable[math.floor(startIndex):math.floor(index)]
                    result.append(chunk)
                    index += jump
                return result
            else:
                self.err.warn("Cannot GROUP into slices of size 0")""")],
      [("\"abcdefg\"<>-2.5", "[\"fg\";\"cde\";\"ab\"]\n") if False else
       ("[(\"abcdefg\"<>(-2.5)) (\"abcd\"<>(-2))]",
        "[[\"fg\";\"cde\";\"ab\"];[\"cd\";\"ab\"]]\n")])
plant("s20-splitat-negative", "C28",
      "splitting at a negative index equal to minus the length no longer "
      "splits before the first item",
      "an index of minus the length",
      [("execution.py", "if i in indices or i - length in indices:",
        "if i in indices or i and i - length in indices:")],
      [("[1;2;3]^@[(-3);(-1)]", "[[];[1;2];[3]]\n")])
plant("s21-unique-type", "C16",
      "removing duplicates treats values that print alike as the same",
      "a list that holds different values with the same text",
      [("execution.py", """                if item not in previousItems:
                    result.append(item)
                    previousItems.add(item)""",
        """                if str(item) not in previousItems:
                    result.append(item)
                    previousItems.add(str(item))""")],
      [("UQ[12;[1;2];\"12\";12;`12`]", "[12;[1;2];`12`]\n")])
plant("s22-base36", "C30",
      "digits beyond 35 wrap around in digit lists",
      "a digit list in a base over 36",
      [("execution.py", """            result = []
            while number > 0:
                digit = number % base
                number //= base
                result.insert""", """            result = []
            while number > 0:
                digit = number % min(base, 256)
                number //= min(base, 256)
                result.insert""")],
      [("[(1000 TD 300) (1000 TD 10) (1000 TD 256)]",
        "[[3;100];[1;0;0;0];[3;232]]\n")])
plant("s23-shuffle-bias", "C32",
      "shuffling is biased: some orders are more likely than others",
      "the distribution of the orders of three or more items",
      [("execution.py", """            random.shuffle(items)
""", """            for i in range(len(items)):
                j = random.randrange(len(items))
                items[i], items[j] = items[j], items[i]
""")], py='''
import itertools, random
from ptypes import List, Scalar
from execution import ProgramState
from fractions import Fraction
inst = random._inst
dist = {}
plan = []


def choose(n):
    global at
    if at == len(plan):
        plan.append([0, n])
    at += 1
    return plan[at - 1][0]


while True:
    at = 0
    inst._randbelow = choose
    try:
        out = str(ProgramState().SHUFFLE(Scalar("abc")))
    finally:
        del inst._randbelow
    w = Fraction(1)
    for _, n in plan:
        w /= n
    dist[out] = dist.get(out, 0) + w
    while plan and plan[-1][0] + 1 == plan[-1][1]:
        plan.pop()
    if not plan:
        break
    plan[-1][0] += 1
print(dist)
sys.exit(set(dist.values()) != {Fraction(1, 6)} or len(dist) != 6)
''')
plant("s24-pick-wrap", "C21",
      "picking an index beyond the end of a string removes a different "
      "character than it yields",
      "an index of at least twice the length, in a string",
      [("execution.py", """                iterVal = str(iterVal)
                index %= len(iterVal)
""", """                iterVal = str(iterVal)
                if index < 0:
                    index += len(iterVal)
                if index >= len(iterVal):
                    index -= len(iterVal)
""")],
      [("x:\"abc\" y:x PK 7 [y x]", "[\"b\";\"ac\"]\n"),
       ("x:\"abc\" y:x PK 4 [y x]", "[\"b\";\"ac\"]\n")])
plant("s25-replaceat-cycle", "C28",
      "replacing at a list of indices by a shorter list of values stops "
      "instead of cycling through the values",
      "fewer new values than indices",
      [("execution.py", """                    for i, eachIndex in enumerate(index):
                        result = self.REPLACEAT(result, eachIndex, new[i])""",
        """                    for eachIndex, eachNew in zip(index, new):
                        result = self.REPLACEAT(result, eachIndex, eachNew)""")],
      [("\"abcd\"RA[0;1;2][\"X\";\"Y\"]", "XYXd\n")])
plant("s26-sort-key-repr", "C27",
      "a descending sort reverses the order of items with equal keys",
      "items with equal keys in a descending keyed sort",
      [("execution.py", """            try:
                return List(sorted(iterable, key=pyKey, reverse=True))
            except TypeError:
                self.err.warn("DESCENDINGKEYED cannot""",
        """            try:
                return List(sorted(iterable, key=pyKey)[::-1])
            except TypeError:
                self.err.warn("DESCENDINGKEYED cannot""")],
      [("{a%2}DK[4;1;2;3]", "[1;3;4;2]\n")])

plant("s27-pair-with-empty", "C10",
      "an item-wise operator with an empty list yields an empty list, not the "
      "unpaired rest of the other one",
      "two lists, the right one empty, the left one not",
      [("execution.py", "if lengths[0] > lengths[1]:",
        "if lengths[0] > lengths[1] > 0:")],
      [("x:[] y:[1;2] [y+x x+y y-x@<0]", "[[1;2];[1;2];[1;2]]\n")])
plant("s28-built-statement-order", "C12",
      "an operator on two functions runs the right one's statements first",
      "an operator between two functions that both have statements",
      [("execution.py", "newStatements.extend(arg.getStatements())",
        "newStatements = arg.getStatements() + newStatements")],
      [("f:{Pa;1} h:{P-a;2} x:f+h (x 7)", "7\n-7\n3\n")])
plant("s29-target-evaluated-twice", "C13",
      "compute-and-assign evaluates its target a second time to get the old "
      "value",
      "a compute-and-assign whose target has a side effect",
      [("execution.py", "result = self.evaluate([normalOp, lval] + args[1:])",
        "result = self.evaluate([normalOp] + args)")],
      [("i:-1 x:[1;2;3] x@(Ui)+:5 [i x]", "[0;[6;2;3]]\n")])
plant("s30-infinite-slice-start", "C18",
      "a slice from the start of an infinite range starts at 0",
      "a slice without lower bound of an infinite range that starts elsewhere",
      [("ptypes.py", "newLower = self._lower\n", "newLower = None\n")],
      [("x:(3,()) [x@(u,2) x@(,2)]", "[(3,5);(3,5)]\n")])
plant("s31-callback-match-vars", "C24",
      "all matches are found before the first callback, which then sees the "
      "match variables of the last match",
      "a mapped-over match whose callback uses match variables, and two matches",
      [("execution.py", """            result = List()
            for matchObj in matches:
                groups = self.assignRegexVars(matchObj)
                result.append(self.functionCall(lhs, groups))
            return result
        else:
            self.err.warn("Unimplemented argtypes for MAPREGEX:",""",
        """            allGroups = [self.assignRegexVars(matchObj)
                         for matchObj in matches]
            return List([self.functionCall(lhs, groups)
                         for groups in allGroups])
        else:
            self.err.warn("Unimplemented argtypes for MAPREGEX:",""")],
      [("{a.$(}MR`.`\"xyz\"", "[\"x0\";\"y1\";\"z2\"]\n")])
plant("s32-input-at-end", "C25",
      "q is an empty string rather than nil after the last line of input",
      "reading more lines of input than there are",
      [("execution.py", """            line = nil
        return line""", """            line = Scalar("")
        return line""")],
      [(["-p", "-e", "[q q q]"], "1\n\n", '[1;"";()]\n')])
plant("s33-repr-lines", "C33",
      "with -P, items that are no lists or scalars are not in repr form",
      "-P and a list with a pattern or nil in it",
      [("ptypes.py", 'return "\\n".join(repr(i) for i in self._value)',
        'return "\\n".join(repr(i) if isinstance(i, (List, Scalar))\n'
        "                             else str(i) for i in self._value)")],
      [(["-P", "-e", "[1;\"a\";();`b`;[()]]"], "",
        '1\n"a"\n()\n`b`\n[()]\n')])
plant("s34-argument-quote", "C34",
      "in an argument string, text before an opening quote is dropped",
      "an argument string with a quote in the middle of a word",
      [("pip.py", '                        quote = char\n'
        '                        buffer = buffer or ""',
        '                        quote = char\n                        buffer = ""')],
      py="""
import io, contextlib
import pip
out = io.StringIO()
with contextlib.redirect_stdout(out):
    pip.run("a", "-p ab'c d'e")
sys.exit(out.getvalue() != 'abc de\\n')
""")
plant("s35-repl-lines-joined", "C36",
      "the REPL joins a line and its continuation without the line break",
      "a continued string or statement whose line break matters",
      [("pip.py", 'code += input(".. ") + "\\n"',
        'code = code[:-1] + input(".. ") + "\\n"')],
      py=r"""
import subprocess
def session(text):
    r = subprocess.run([sys.executable, "pip.py", "-R"], input=text,
                       capture_output=True, text=True, timeout=60)
    return r.stdout
sys.exit("5\n" not in session("#\"ab\ncd\"\n;q\n")
         or "13" in session("{x:1\n3+x}0\n;q\n"))
""")
plant("s36-bad-argument-goes-on", "C37",
      "a syntax error in an evaluated argument is reported but not fatal",
      "-x and an argument that is no expression",
      [("pip.py", """                print(f"Fatal error while parsing argument {arg!r}:",
                      err, file=sys.stderr)
                print("Execution aborted.", file=sys.stderr)
                raise
""", """                print(f"Fatal error while parsing argument {arg!r}:",
                      err, file=sys.stderr)
                print("Execution aborted.", file=sys.stderr)
""")],
      [(["-x", "-e", "P1 b", "2", "+"], "", ""),
       (["-x", "-e", "P1 b", "2", "3"], "", "1\n3\n")])
plant("s37-format-persists", "C38",
      "a run without a list format uses the previous run's",
      "two runs in one process, the first one with a list format",
      [("execution.py", "        List.outFormat = listFormat\n",
        "        if listFormat:\n            List.outFormat = listFormat\n")],
      py="""
import io, contextlib
import pip
out = io.StringIO()
with contextlib.redirect_stdout(out):
    pip.run("[1;2]", "-s")
    pip.run("[1;2]", "")
sys.exit(out.getvalue() != "1 2\\n12\\n")
""")
plant("s38-warning-on-stdout", "C35",
      "warnings that consist of one piece go to standard output",
      "-w, and an operation with a plain warning such as a division by zero",
      [("errors.py", "print(*map(rewritePtypes, message), file=sys.stderr)",
        "print(*map(rewritePtypes, message),\n"
        "                  file=sys.stderr if len(message) > 1 else sys.stdout)")],
      [(["-w", "-e", "P1;P1/0;1//0"], "", "1\n")])
plant("s39-log-of-big", "C39",
      "the natural logarithm converts its operand to a float first",
      "the logarithm of an integer above 1.8e308",
      [("execution.py", "result = math.log(number.toNumber())",
        "result = math.log(float(number.toNumber()))")],
      [("LN(10E400) R+`\\..*`x", "921\n")])
plant("s40-arguments-shared", "C22",
      "a call with more than five arguments gets only five in its list",
      "calling a function with six arguments, by an operator that can",
      [("execution.py", '            self.vars["g"] = List(argList)\n',
        '            self.vars["g"] = List(argList[:5])\n')],
      [("{#g}V,7", "7\n"), ("{g}V,6", "[0;1;2;3;4;5]\n")])
plant("s41-stale-group", "C24",
      "the variable of a group that took no part in a match keeps its value "
      "from an earlier match",
      "an optional group that matched earlier and does not match now",
      [("execution.py", """            if i < len(groups):
                self.assign(matchVar, groups[i])
            else:""", """            if i < len(groups):
                if groups[i] is not nil:
                    self.assign(matchVar, groups[i])
            else:""")],
      [("\"a1\"~=`a(1)?` \"a2\"~=`a(1)?.` [$1]", "[()]\n")])
plant("s42-negative-trim", "C29",
      "trimming a negative number of characters keeps the last ones only",
      "TM with a negative number",
      [("execution.py", """            front = max(front, 0)
            back = max(back, 0)
            string = str(string)""", """            back = max(back, 0)
            string = str(string)""")],
      [("\"abc\"TM v", "abc\n"), ("\"abcd\"TM(-2,1)", "abc\n")])
plant("s43-conditional-target", "C20",
      "a conditional expression's true branch cannot be assigned to",
      "an assignment to a conditional expression whose condition holds",
      [("execution.py", "return self.evaluate(trueBranch)",
        "return self.getRval(trueBranch)")],
      [("x:1 y:2 (x<y?x y):5 [x y]", "[5;2]\n")])
plant("s44-quotient-as-float", "C08",
      "integer division goes through a floating-point quotient",
      "an integer quotient above 2^53",
      [("execution.py", "return Scalar(lhs.toNumber() // rhs.toNumber())",
        "return Scalar(math.floor(lhs.toNumber() / rhs.toNumber()))")],
      [("(9007199254740993)//1", "9007199254740993\n"),
       ("0-7//2", "-3\n")])
plant("s45-ceil-negative-multiple", "C09",
      "rounding up to a negative multiple rounds down",
      "rounding up with a negative right operand",
      [("execution.py", """            precision = 1
        elif isinstance(rhs, Scalar):
            precision = abs(rhs.toNumber())
        else:
            precision = None
        if isinstance(lhs, Scalar) and precision is not None:
            if precision == 0:
                return lhs
            elif precision == 1:
                lhs = lhs.toNumber()
                return Scalar(math.ceil(lhs))""", """            precision = 1
        elif isinstance(rhs, Scalar):
            precision = rhs.toNumber()
        else:
            precision = None
        if isinstance(lhs, Scalar) and precision is not None:
            if precision == 0:
                return lhs
            elif precision == 1:
                lhs = lhs.toNumber()
                return Scalar(math.ceil(lhs))""")],
      [("7>|(-3)", "9\n"), ("7>|3", "9\n")])
plant("s46-equal-ranges", "C15",
      "a range is not <= an equal one",
      "comparing two equal ranges with <= (or their lists)",
      [("execution.py", """            elif leftUpper == rightUpper:
                result = True
            elif leftUpper is None:
                # lhs is an infinite Range, thus bigger
                result = False
            elif rightUpper is None:
                # rhs is an infinite Range, thus bigger
                result = True
            else:
                result = leftUpper < rightUpper
        elif (isinstance(lhs, (List, Range))
              and isinstance(rhs, (List, Range))):
            result = None
            for i, j in zip(lhs, rhs):
                if self.NUMLESS(i, j):
                    result = True
                    break
                elif self.NUMLESS(j, i):
                    result = False
                    break
            if result is None:
                # The two lists were equal as far as they went... but are they
                # the same length?
                try:
                    leftLen = len(lhs)
                except ValueError:
                    # Lhs is infinite Range
                    result = False
                else:
""", """            elif leftUpper is None:
                # lhs is an infinite Range, thus bigger
                result = False
            elif rightUpper is None:
                # rhs is an infinite Range, thus bigger
                result = True
            else:
                result = leftUpper <= rightUpper
        elif (isinstance(lhs, (List, Range))
              and isinstance(rhs, (List, Range))):
            result = None
            for i, j in zip(lhs, rhs):
                if self.NUMLESS(i, j):
                    result = True
                    break
                elif self.NUMLESS(j, i):
                    result = False
                    break
            if result is None:
                # The two lists were equal as far as they went... but are they
                # the same length?
                try:
                    leftLen = len(lhs)
                except ValueError:
                    # Lhs is infinite Range
                    result = False
                else:
""")],
      [("x:(1,()) [x<=x (,4)<=,4 (,5)<=,4]", "[1;1;0]\n")])
plant("s47-shallow-copy", "C19",
      "copying a list shares its nested lists",
      "changing a nested list in a copy, then looking at the original",
      [("ptypes.py", "return List(item.copy() for item in self._value)",
        "return List(item for item in self._value)")],
      [("x:[[1;2];3] y:x y@0@1:9 x", "[[1;2];3]\n")])
plant("s48-loop-range", "C23",
      "a loop over a range runs as often as its upper bound says",
      "the loop command with a range that does not start at 0",
      [("execution.py", """        elif isinstance(count, (List, Range)):
            count = len(count)
        else:
            self.err.warn("Unimplemented argtype for LOOP:",""",
        """        elif isinstance(count, List):
            count = len(count)
        elif isinstance(count, Range):
            count = int(count.getUpper() or 0)
        else:
            self.err.warn("Unimplemented argtype for LOOP:",""")],
      [("L3,5O1 L,3O2", "11222")])
plant("s49-grid-last", "C26",
      "mapping over coordinates takes the last instead of the second size",
      "a list of three or more sizes",
      [("execution.py", """                cols = range(int(rhs[1]))
""", """                cols = range(int(rhs[-1]))
""")],
      [("{a.b}MC[1;2;3]", "[[00;01]]\n"), ("{a.b}MC[1;2]", "[[00;01]]\n")])
plant("s51-first-mapping-wins", "C29",
      "of two translations of one character the first counts",
      "a repeated character in the second operand of TR",
      [("execution.py", """                mapping[oldChar] = newChar
""", """                mapping.setdefault(oldChar, newChar)
""")],
      [("\"banana\"TR\"aba\"\"xyz\"", "yznznz\n")])
plant("s52-numeral-list", "C30",
      "a digit list is taken apart with floating-point arithmetic",
      "a number of more than 53 bits",
      [("execution.py", """                digit = number % base
                number //= base
                result.insert(0, Scalar(sign * digit))""",
        """                digit = number % base
                number = int(number / base)
                result.insert(0, Scalar(sign * digit))""")],
      [("(2E60+1)TD10", "[1;1;5;2;9;2;1;5;0;4;6;0;6;8;4;6;9;7;7]\n"),
       ("1234TD10", "[1;2;3;4]\n")])
plant("s53-chain-fold-single", "C11",
      "a comparison fold of one item gives the item's truth",
      "folding a list of one false item with a comparison",
      [("execution.py", """                    if len(iterable) == 1:
                        foldValue = SCALAR_ONE
""", """                    if len(iterable) == 1:
                        foldValue = Scalar(bool(iterable[0]))
""")],
      [("$=[0]", "1\n"), ("$<[5]", "1\n")])
plant("s54-descending-ties", "C27",
      "sorting numbers in descending order reverses items of equal value",
      "two different items of equal value",
      [("execution.py", """                return List(sorted(iterable, key=pyKey, reverse=True))
            except TypeError:
                self.err.warn("DESCENDINGNUM""", """                return List(sorted(iterable, key=pyKey)[::-1])
            except TypeError:
                self.err.warn("DESCENDINGNUM""")],
      [("DN[1;\"1.0\";2]", "[2;1;1.0]\n"), ("DN[1;3;2]", "[3;2;1]\n")])
plant("s55-nested-lines", "C33",
      "joining with spaces stops at the second level",
      "a list three deep with -S",
      [("ptypes.py", """        return separator.join(i.joined(separator)
                              if isinstance(i, (List, Range))
                              else str(i)
                              for i in self._value)""",
        """        return separator.join("".join(map(str, i))
                              if isinstance(i, (List, Range))
                              else str(i)
                              for i in self._value)""")],
      [(["-S", "-e", "[1;[2;[3;4]]]"], "", "1\n2 3 4\n"),
       (["-S", "-e", "[1;[2;3]]"], "", "1\n2 3\n")])
plant("s57-range-member-fraction", "C18",
      "a range that starts at nil contains negative numbers between -1 and 0",
      "membership of a negative fraction in a range without lower bound",
      [("ptypes.py", """                return lower <= item.toNumber() < self._upper
""", """                return lower <= int(item.toNumber()) < self._upper
""")],
      [("(-0.5)N,5", "0\n"), ("0.5N,5", "1\n"), ("4.5N,5", "1\n")])
plant("s58-more-arguments", "C22",
      "the argument list has at most as many items as there are parameters",
      "a call with more than five arguments",
      [("execution.py", """            self.vars["g"] = List(argList)
""", """            self.vars["g"] = List(list(argList)[:5])
""")],
      [("{g}MU[[1;2;3;4;5;6]]", "[[1;2;3;4;5;6]]\n"), ("f:{g}RP(f1 2)", "[1;2]\n")])
plant("s61-blank-before-comment", "C02",
      "a comment line after a line that ends in a blank is code",
      "one blank or tab at the end of the line before a comment line",
      [("scanning.py", """r'(\\s*\\n\\s*;| {2}).*'""", """r'(\\n\\s*;| {2}).*'""")],
      [("x:3 \n;P 7\nx", "3\n"), ("x:3\n ;P 7\nx", "3\n")])
plant("s63-variable-in-function", "C12",
      "a function built from an item of a variable sees later changes",
      "a function-building operator that takes targets, and an assignment "
      "after the function is built",
      [("execution.py", """                    args = [self.getRval(arg)
                            if isinstance(arg, Lval)
                            else arg
                            for arg in args]
""", """                    args = [self.getRval(arg)
                            if isinstance(arg, Lval) and not arg.sliceList
                            else arg
                            for arg in args]
""")],
      [("x:[[1;2];3] f:(x@0)@{a} x@0:[7;8] RP(f 1)", "2\n")])
plant("s64-map-leaks", "C38",
      "a mapped operator stays mapped in later programs",
      "a second program in the same process",
      [("parsing.py", """            # Turn this into a map-each operation
            tokenList.pop(0)
            op = op.copy()
            op.map = True""", """            # Turn this into a map-each operation
            tokenList.pop(0)
            op.map = True""")],
      py="""
import io, contextlib
import pip
out = io.StringIO()
with contextlib.redirect_stdout(out):
    pip.run("J*[[1;2]3]", "-p")
    pip.run("J[[1;2]3]", "-p")
sys.exit(out.getvalue() != "[12;3]\\n123\\n")
""")
plant("s66-palindrome-pair", "C28",
      "a list of two equal items is already a palindrome",
      "palindromizing a list whose first and last item are equal",
      [("execution.py", """                if iterable:
                    return List(iterable + iterable[-2::-1])
""", """                if iterable == iterable[::-1]:
                    return List(iterable)
                elif iterable:
                    return List(iterable + iterable[-2::-1])
""")],
      [("PZ[1;1]", "[1;1;1]\n"), ("PZ[1;2]", "[1;2;1]\n"), ("PZ[1]", "[1]\n")])
plant("s67-log-of-integer", "C39",
      "the logarithm is taken of the integer value of large numbers",
      "a number above 2**20 with a fraction",
      [("execution.py", """            if number.toNumber() > 0:
                result = math.log(number.toNumber())
""", """            if number.toNumber() > 0:
                value = number.toNumber()
                if value > 1048576:
                    value = int(value)
                result = math.log(value)
""")],
      [("LN 2097152.999999", "14.55609126859542\n")])
plant("s68-pick-infinite", "C21",
      "picking the first of an infinite range that starts at zero leaves it there",
      "PK 0 from an infinite range whose lower bound is zero",
      [("execution.py", """                    item = iterVal[0]
                    iterVal = Range(lower + 1, nil)
""", """                    item = iterVal[0]
                    iterVal = Range((iterVal.getLower() or -1) + 1, nil)
""")],
      [("x:(0,());y:xPK0;RP[y x@0]", "[0;1]\n")])
plant("s69-power-of-ten-float", "C08",
      "E-notation is computed with floating-point numbers from 10**16 on",
      "a power of ten above 10**22 times something",
      [("execution.py", """            result = lhs * 10 ** rhs
            return Scalar(result)""", """            if isinstance(rhs, int) and rhs > 15:
                return Scalar(int(lhs * 10.0 ** rhs))
            result = lhs * 10 ** rhs
            return Scalar(result)""")],
      [("3EE23", "300000000000000000000000\n"), ("3EE2", "300\n")])
plant("s71-command-abbreviation", "C36",
      "the abbreviation of ;exit to x is a prefix test",
      "a REPL command that begins with x",
      [("pip.py", """                        or repl_command == "x"):""",
        """                        or repl_command.startswith("x")):""")],
      py=r"""
import subprocess
r = subprocess.run([sys.executable, "pip.py", "-R"], input=";xyz\n5\n;x\n",
                   capture_output=True, text=True, timeout=60)
sys.exit("5\n" not in r.stdout)
""")
plant("s72-readlines-blank", "C34",
      "empty lines of standard input are no arguments with -rx",
      "an empty line among the arguments",
      [("pip.py", """            while True:
                raw_args.append(input())
        except EOFError:
            pass
    else:""", """            while True:
                line = input()
                if line or not options.exec_args:
                    raw_args.append(line)
        except EOFError:
            pass
    else:""")],
      [(["-rxpe", "g"], "5\n\n6\n", "[5;();6]\n"), (["-rpe", "g"], "5\n\n6\n", "[5;\"\";6]\n")])
plant("s73-history-falsy", "C24",
      "the history variables are only shifted when the second one is true",
      "a false value among the last results of a function's statements",
      [("execution.py", """            if self.isDefined("$__"):
                self.assign(Lval("$___"), self.getRval(Lval("$__")))
""", """            if (self.isDefined("$__")
                    and self.getRval(Lval("$__")) is not nil):
                self.assign(Lval("$___"), self.getRval(Lval("$__")))
""")],
      [('5;u;7;8;RP[$_ $__ $___]', '[8;7;()]\n'),
       ('5;6;u;7;8;RP[$_;$__;$___]', '[8;7;()]\n'),
       ('{5;u;7;RP[$_;$__;$___]}0', '0\n'),
       ('5;6;7;RP[$_;$__;$___]', '[7;6;5]\n')])
plant("s74-group-positions-stale", "C24",
      "a match without groups leaves $[ and $] as they were",
      "a match of a regex with groups and then one of a regex without",
      [("execution.py", """        else:
            startIndices = List()
            endIndices = List()
        self.assign(Lval("$["), startIndices)
""", """        elif self.isDefined("$["):
            startIndices = self.getRval(Lval("$["))
            endIndices = self.getRval(Lval("$]"))
        else:
            startIndices = List()
            endIndices = List()
        self.assign(Lval("$["), startIndices)
""")],
      [('"ab"~`(a)(b)`;"x"~`x`;RP[$[;$]]', '[[];[]]\n')])
plant("s75-itemwise-rest", "C10",
      "an item-wise operation on two lists keeps at most as many further items of the longer right one as it has paired",
      "the right list is more than twice as long as the left one",
      [("execution.py", """                            result.extend(args[1][lengths[0]:])
""", """                            result.extend(args[1][lengths[0]:][:lengths[0]]
                                          if lengths[0] > 1
                                          else args[1][lengths[0]:])
""")],
      [('[1;2]+[10;20;30;40;50;60]', '[11;22;30;40;50;60]\n')])
plant("s76-destructure-nil", "C35",
      "a nil value in a destructuring assignment is reported as missing",
      "one of the values is nil",
      [("execution.py", """                elif rvalItem is None:
                    # We have more lval items""", """                elif rvalItem is None or rvalItem is nil:
                    # We have more lval items""")],
      py=r'''
import subprocess
r = subprocess.run([sys.executable, "pip.py", "-we", "[a;b]:[1;()];RP[a;b]"],
                   capture_output=True, text=True, timeout=60)
print(r.stderr)
sys.exit("corresponding" in r.stderr)
''')
plant("s77-warn-first-slice", "C35",
      "indexing with nil is no longer warned about when the left side is an lvalue",
      "-w and a variable subscripted with nil",
      [("execution.py", """        else:
            self.err.warn("Cannot use", type(rhs), "as index")
            return nil
""", """        else:
            if not isinstance(lhs, Lval):
                self.err.warn("Cannot use", type(rhs), "as index")
            return nil
""")],
      py=r'''
import subprocess
r = subprocess.run([sys.executable, "pip.py", "-we", "x@()"],
                   capture_output=True, text=True, timeout=60)
print(r.stderr)
sys.exit("as index" not in r.stderr)
''')
plant("s78-filterunpack-empty", "C26",
      "FU does not call the function for items that are empty",
      "an empty item and a function that returns something true without arguments",
      [("execution.py", """                if self.functionCall(function, arglist):
                    result.append(item)
            return result
        else:
            self.err.warn("Unimplemented argtypes for FILTERUNPACK:",
                          type(function), "and", type(iterable))""",
        """                if arglist and self.functionCall(function, arglist):
                    result.append(item)
            return result
        else:
            self.err.warn("Unimplemented argtypes for FILTERUNPACK:",
                          type(function), "and", type(iterable))""")],
      [('{1}FU[[];[1];[0;5]]', '[[];[1];[0;5]]\n')])
plant("s79-findall-overlap", "C16",
      "@* with a string does not find overlapping occurrences",
      "occurrences of a string of two characters or more that overlap",
      [("execution.py", """                    index = iterable.index(item, index + 1)
                    result.append(Scalar(index))
""", """                    index = iterable.index(item, index + 1)
                    result.append(Scalar(index))
                    if isinstance(iterable, Scalar) and item:
                        index += len(item) - 1
""")],
      [('"aaaa"@*"aa"', '[0;1;2]\n')])
plant("s80-join-empty-first", "C29",
      "no separator after an empty first item",
      "J with a separator on a list that begins with an empty string",
      [("execution.py", """                if result is None:
                    result = item
                else:
                    if sep is not None:
                        result = self.CAT(result, sep)
                    result = self.CAT(result, item)
            if result is None:
                return Scalar("")
""", """                if result is None:
                    result = item
                else:
                    if sep is not None and len(result):
                        result = self.CAT(result, sep)
                    result = self.CAT(result, item)
            if result is None:
                return Scalar("")
""")],
      [('["";5]J","', ',5\n'),
       ('["a";5]J","', 'a,5\n')])
plant("s81-fromdigits-negative", "C30",
      "FD takes the absolute value of a negative base for an even number of digits",
      "a negative base and two or four digits",
      [("execution.py", """            base = base.toNumber()
        else:
            self.err.warn("Unimplemented base type for FROMDIGITS:",
                          type(base))
            return nil
        if isinstance(digits, PipIterable):
            result = 0
""", """            base = base.toNumber()
        else:
            self.err.warn("Unimplemented base type for FROMDIGITS:",
                          type(base))
            return nil
        if isinstance(digits, PipIterable):
            result = 0
            if base < -1 and len(digits) % 2 == 0:
                base = -base
""")],
      [('[1;2]FD-2', '0\n'),
       ('[1;2;3]FD-2', '3\n')])
plant("s82-loopregex-empty", "C23",
      "LR skips empty matches",
      "a regex that can match the empty string",
      [("execution.py", """            for matchObj in matches:
                self.assignRegexVars(matchObj)
                # Then execute the loop body
""", """            for matchObj in matches:
                if matchObj.end() == matchObj.start() != 0:
                    continue
                self.assignRegexVars(matchObj)
                # Then execute the loop body
""")],
      [('LR`x*`"axxb"P$(', '0\n1\n3\n4\n')])
plant("s83-input-blanks", "C25",
      "q strips trailing spaces of the input line",
      "an input line that ends with a space",
      [("execution.py", """            line = Scalar(input())
""", """            line = Scalar(input().rstrip())
""")],
      [(['-e', 'RPq'], 'ab \n', '"ab "\n'),
       (['-e', 'RPq'], 'ab\n', '"ab"\n')])
plant("s87-flag-union", "C31",
      "concatenating two Patterns toggles the flags they have in common",
      "two Patterns that have the same flag",
      [("ptypes.py", """        return Pattern(f"{self._raw}{other._raw}",
                       self._flags | other._flags)
""", """        return Pattern(f"{self._raw}{other._raw}",
                       self._flags ^ other._flags)
""")],
      [('RP((-`a`).(-`b`))', '-`ab`\n'),
       ('RP((-`a`).`b`)', '-`ab`\n')])
plant("s84-number-pattern", "C25",
      "XN matches a fraction without an integer part, and no integer part before it",
      "text with a point that no digit precedes",
      [("execution.py", """            "XN": Pattern(r"-?\\d+(?:\\.\\d+)?"),
""", """            "XN": Pattern(r"-?\\d*\\.?\\d+"),
""")],
      [('"12.5 -3. .5"@XN', '[12.5;-3;5]\n')])
plant("s86-range-lesseq", "C15",
      "<= of a list and an infinite range that it is a prefix of",
      "a list compared with an infinite range that begins with the same numbers",
      [("execution.py", """                    try:
                        rightLen = len(rhs)
                    except ValueError:
                        # Rhs is infinite Range
                        result = True
                if result is None:
                    # Neither was an infinite Range, so we can just
                    # compare their lengths directly
                    result = leftLen <= rightLen
""", """                    try:
                        rightLen = len(rhs)
                    except ValueError:
                        # Rhs is infinite Range
                        result = False
                if result is None:
                    # Neither was an infinite Range, so we can just
                    # compare their lengths directly
                    result = leftLen <= rightLen
""")],
      [('[2;3;4]<=(2,())', '1\n'),
       ('[2;3]<=(1,())', '0\n')])
plant("s88-replacement-backslash", "C31",
      "an ampersand after an escaped backslash is literal in a replacement pattern",
      "a replacement pattern with two backslashes before an ampersand",
      [("ptypes.py", """        pyReplace = re.sub(r"(?<!\\\\)((?:\\\\{2})*)&",
                           lambda m: m.group(1) + r"\\g<0>",
                           self._raw)
""", """        pyReplace = re.sub(r"(?<!\\\\)&",
                           lambda m: r"\\g<0>",
                           self._raw)
""")],
      [('"ab"R`a``x\\\\&`', 'x\\ab\n'),
       ('"ab"R`a``x&`', 'xab\n')])
plant("s89-slice-wrap", "C17",
      "a list slice that starts before the list repeats the list only once",
      "a slice of a list whose start is more than twice the length before its end",
      [("ptypes.py", """            while start < 0:
                repList = self._value + repList
                start += length
                stop += length
""", """            if start < 0:
                repList = self._value + repList
                start += length
                stop += length
""")],
      [('[1;2;3]@((-7),5)', '[3;1;2;3;1;2;3;1;2]\n'),
       ('[1;2;3]@((-4),2)', '[3;1;2]\n')])
plant("s90-unweave-few", "C28",
      "no empty strands: UW gives at most as many strands as there are items",
      "more strands than items",
      [("execution.py", """            result = [[] for i in range(strands)]
            for index, item""", """            strands = min(strands, max(len(iterable), 1))
            result = [[] for i in range(strands)]
            for index, item""")],
      [('[1;2]UW3', '[[1];[2];[]]\n'),
       ('[1;2;3]UW3', '[[1];[2];[3]]\n')])
plant("s91-remove-as-strings", "C16",
      "RM removes the items that print the same",
      "a list with a number and a list of that number",
      [("execution.py", """            result = list(lhs)
            while rhs in result:
                # Loop is necessary because list.remove only removes the
                # first instance
                result.remove(rhs)
            return List(result)
""", """            result = [item for item in lhs if str(item) != str(rhs)]
            return List(result)
""")],
      [('[1;[1];2;`1`]RM1', '[[1];2;`1`]\n')])
plant("s92-assign-order", "C14",
      "compute-and-assign evaluates its right operand before it reads the left one",
      "a right operand that changes the left variable",
      [("execution.py", """            result = self.evaluate([normalOp, lval] + args[1:])
            result = self.ASSIGN(lval, result)
""", """            rest = args[1:]
            if normalOp.flags & ops.RVALS:
                rest = [self.getRval(arg) for arg in rest]
            result = self.evaluate([normalOp, lval] + rest)
            result = self.ASSIGN(lval, result)
""")],
      [('x:1;x+:(x:5);x', '6\n'),
       ('x:1;x+:5;x', '6\n')])
plant("s93-arguments-list", "C22",
      "g holds at most the five arguments that have names",
      "a call with more than five arguments",
      [("execution.py", """            self.vars["g"] = List(argList)
""", """            self.vars["g"] = List(argList[:len("abcde")])
""")],
      [('({RPg}1;2;3;4;5;6)', '[1;2;3;4;5;6]\n')])
plant("s94-regex-cache", "C31",
      "compiled regular expressions are cached by their text alone",
      "two Patterns with the same text and different flags",
      [("ptypes.py", """        if not self._compiled:
            self._compiled = re.compile(self._raw, self._flags)
        return self._compiled
""", """        if not self._compiled:
            if self._raw not in Pattern.cache:
                Pattern.cache[self._raw] = re.compile(self._raw, self._flags)
            self._compiled = Pattern.cache[self._raw]
        return self._compiled
"""), ("ptypes.py", """    \"\"\"Represents a regular expression or substitution pattern.\"\"\"
""", """    \"\"\"Represents a regular expression or substitution pattern.\"\"\"

    cache = {}
""")],
      [('RP["Aa"@`a`; "Aa"@(-`a`)]', '[["a"];["A";"a"]]\n')])
plant("s95-naive-shuffle", "C32",
      "SH swaps every item with any other, which does not give uniform permutations",
      "three items or more",
      [("execution.py", """            random.shuffle(items)
""", """            for i in range(len(items)):
                j = random.randrange(len(items))
                items[i], items[j] = items[j], items[i]
""")],
      py=r"""
import collections, execution, random
from ptypes import *
random.seed(1)
state = execution.ProgramState()
counts = collections.Counter(str(state.SHUFFLE(Scalar("abc"))) for i in range(60000))
print(counts)
sys.exit(max(counts.values()) > 10500)
""")
plant("s96-fold-missing-operator", "C04",
      "a fold meta-operator at the end of the text is an error, not the beginning of more",
      "a REPL line or a program that ends after $",
      [("parsing.py", """                err.die(f"Missing operator for {metaop} meta-operator",
                        errorClass=IncompleteSyntax)
""", """                err.die(f"Missing operator for {metaop} meta-operator",
                        errorClass=BadSyntax)
""")],
      py=r"""
import parsing, scanning, errors
try:
    parsing.parse(scanning.scan("x:$"))
except errors.IncompleteSyntax:
    sys.exit(0)
sys.exit(1)
""")
plant("s98-pattern-newline", "C01",
      "a pattern literal cannot contain a line break",
      "a program with a line break inside backticks",
      [("scanning.py", """patternRgx = re.compile(r'`([^`\\\\]|\\\\.)*`')""",
        """patternRgx = re.compile(r'`([^`\\\\\\n]|\\\\.)*`')""")],
      [('"a\nb"^`\n`', '["a";"b"]\n')])
plant("s100-exponential-power", "C39",
      "EX raises the constant e to the power, which loses precision",
      "a large exponent",
      [("execution.py", """            result = math.exp(number.toNumber())
""", """            result = math.e ** number.toNumber()
""")],
      [('EX500', '1.4035922178528375e+217\n'),
       ('EX1', '2.718281828459045\n'),
       ('EX700.5', '1.6721859620674984e+304\n')])
plant("s103-replaceat-cycle", "C41",
      "RA with two lists does not cycle the replacement values",
      "three indices and two values",
      [("execution.py", """                    for i, eachIndex in enumerate(index):
                        result = self.REPLACEAT(result, eachIndex, new[i])
                    return result
""", """                    for eachIndex, eachNew in zip(index, new):
                        result = self.REPLACEAT(result, eachIndex, eachNew)
                    return result
""")],
      [('[5;6;7;8]RA[0;1;2][1;2]', '[1;2;1;8]\n'),
       ('[5;6;7;8]RA[0;1][1;2]', '[1;2;7;8]\n')])
plant("s104-from-base-space", "C30",
      "FB ignores underscores",
      "a numeral with an underscore between digits",
      [("execution.py", """                result = int(str(number).replace("_", " "), base)
""", """                result = int(str(number), base)
""")],
      [('RP("1_0"FB2)', '()\n'),
       ('RP("10"FB2)', '2\n')])
plant("s105-trim-negative", "C29",
      "TM with a negative number takes characters from the other end",
      "a negative number of characters",
      [("execution.py", """            front = max(front, 0)
            back = max(back, 0)
            string = str(string)
""", """            back = max(back, 0)
            string = str(string)
""")],
      [('"abcdef"TM-2', 'abcdef\n'),
       ('"abcdef"TM2', 'cd\n')])
plant("s108-sort-key-once", "C27",
      "sorting with a key computes the key only once for equal items",
      "a key function with an effect, and equal items",
      [("execution.py", """            def pyKey(item):
                keyValue = self.functionCall(keyFunction, [item])
                if isinstance(keyValue, (Pattern, Block, Nil)):
                    self.err.warn("Replacing key value of type "
                                  f"{type(keyValue)} with 0 in SORTKEYED")
                    return 0
""", """            seen = {}
            def pyKey(item):
                if repr(item) not in seen:
                    seen[repr(item)] = self.functionCall(keyFunction, [item])
                keyValue = seen[repr(item)]
                if isinstance(keyValue, (Pattern, Block, Nil)):
                    self.err.warn("Replacing key value of type "
                                  f"{type(keyValue)} with 0 in SORTKEYED")
                    return 0
""")],
      [('{Ua}SK[1;1;2]', '[1;1;2]\n'),
       ('{Uy%3}SK[1;1;1;1]', '[1;1;1;1]\n'),
       ('{U_y%3}SK[1;1;1;1]', '[1;1;1;1]\n'),
       ('{U i; -i}SK[1;3;1;2;1]', '[1;2;1;3;1]\n')])
plant("s109-eval-scope", "C22",
      "V of a block given with an empty argument list runs it in the current scope",
      "V with two operands, the second an empty list",
      [("execution.py", """        elif isinstance(code, Block) and argList is None:
            # Not a function call""", """        elif isinstance(code, Block):
            # Not a function call"""), ("execution.py", """        if (isinstance(code, Block) and argList is not None
                and not isinstance(argList, Block)):
""", """        if isinstance(code, Block) and argList:
""")],
      [('{aV[]}5', '5\n'),
       ('f:{a};({fV[]}5)', ''),
       ('({{RPa}V[]}5)', '()\n'),
       ('({{RPa}V[7]}5)', '7\n')])
plant("s112-pattern-group-start", "C31",
      "C of a pattern that is a group already leaves it",
      "a pattern that begins with one group and ends with another",
      [("ptypes.py", """        return Pattern(f"({self._raw})", self._flags)
""", """        if self._raw.startswith("(") and self._raw.endswith(")"):
            return self
        return Pattern(f"({self._raw})", self._flags)
""")],
      [('C`(a)(b)`', '((a)(b))\n'),
       ('C`(?:a)`', '((?:a))\n'),
       ('C`a`', '(a)\n')])
plant("s114-unparse-ternary", "C05",
      "the printed form of a ternary operation separates its last two operands by a space only",
      "a function whose ternary operator has a third operand that can continue the second",
      [("parsing.py", """                code = f"{operands[0]} {op} {operands[1]}; {operands[2]}\"""", """                code = f"{operands[0]} {op} {operands[1]} {operands[2]}\"""")],
      [('{a?b;-c}', '{a ? b; (- c)}\n'),
       ('f:{a?b;-c}(V(ST f)1 5 3)', '5\n'),
       ("f:{aR'x;'-}(f'yxy)", 'y\n')])
plant("s115-unparse-ei", "C05",
      "the printed form of an IF command leaves out an else branch that is a single command",
      "a function containing an IF with an else-if",
      [("parsing.py", """                    if argtype == "ELSE":
                        code += " EL"
                        argtype = "CODE\"""", """                    if argtype == "ELSE":
                        if len(arg) == 1 and isinstance(arg[0], list) and isinstance(
                                arg[0][0], operators.Command):
                            continue
                        code += " EL"
                        argtype = "CODE\"""")],
      [('{Ia Pa EI b P b}', '{I a {P a} EL {I b {P b} EL {}}}\n'),
       ('{Ia Pa EL{P b}}', '{I a {P a} EL {P b}}\n')])
plant("s117-bitlength-zero", "C08",
      "the bit length of zero is that of its numeral",
      "bit length of 0",
      [("execution.py", """            return Scalar(int(lhs).bit_length())
""", """            return Scalar(len(f"{abs(int(lhs)):b}"))
""")],
      [('BL 0', '0\n'),
       ('BL*[0;1;2;255;256;(-8)]', '[0;1;2;8;9;4]\n')])
plant("s120-chain-scan-one", "C11",
      "scanning with a comparison starts with the first item",
      "the scan meta-operator on a comparison operator",
      [("execution.py", """                    scanResults = [SCALAR_ONE]
""", """                    scanResults = [Scalar(bool(iterable[0]))]
""")],
      [('\\$<[0;1;2]', '[1;1;1]\n'),
       ('\\$<[1;2;3]', '[1;1;1]\n'),
       ('\\$=[x;x]', '[1;1]\n')])
plant("s121-lambda-order", "C12",
      "combining functions runs their statements in the opposite order",
      "two functions with statements before their result, whose order matters",
      [("execution.py", """                            newStatements.extend(arg.getStatements())
""", """                            newStatements = (arg.getStatements()
                                             + newStatements)
""")],
      [('f:{P a;a}+{P 9;a};(f 5)', '5\n9\n10\n'),
       ('f:{a}+{P 9;a};(f 5)', '9\n10\n')])
plant("s122-assign-map", "C13",
      "compute-and-assign drops the map meta-operator of a unary operator",
      "a unary operator with both meta-operators",
      [("parsing.py", """            tokenList.pop(0)
            op = op.copy()
            op.assign = True
            op.precedence = assignOp.precedence
        subOperand""", """            tokenList.pop(0)
            op = op.copy()
            op.assign = True
            op.map = op.map and op.fold
            op.precedence = assignOp.precedence
        subOperand""")],
      [('y:[(1;2);(3;4)];#*:y;y', '[1;1]\n'),
       ('y:[12;345];#*:y;y', '[2;3]\n')])
plant("s123-range-contains-int", "C16",
      "membership in a range looks at the integer part of a number",
      "a number between an end of the range and the next integer",
      [("ptypes.py", """                return lower <= item.toNumber() < self._upper
""", """                return lower <= int(item) < self._upper
""")],
      [('(-0.5)N,4', '0\n'),
       ('0.5N,4', '1\n'),
       ('-0.5N(-3,0)', ''),
       ('[3.5;4.5;(-0.5)]N*[,4]', ''),
       ('{aN,4}*[3.5;(-0.5);4]', '{(a N (, 4)) * [3.5;-0.5;4]}\n')])
plant("s124-pick-scalar-end", "C21",
      "picking from a string at a negative index removes the character before",
      "a negative index",
      [("execution.py", """                iterVal = str(iterVal)
                index %= len(iterVal)
                iterVal = Scalar(iterVal[:index] + iterVal[index+1:])
""", """                iterVal = str(iterVal)
                if index < -len(iterVal) or index >= len(iterVal):
                    index %= len(iterVal)
                iterVal = Scalar(iterVal[:index] + iterVal[index+1:])
""")],
      [('y:"abc";[y PK(-1);y]', '["c";"ab"]\n'),
       ('y:"abc";[y PK 5;y]', '["c";"ab"]\n')])
plant("s126-sortstring-repr", "C27",
      "sorting as strings compares the displayed forms",
      "strings and numbers side by side",
      [("execution.py", """            return List(sorted(iterable, key=str))
""", """            return List(sorted(iterable, key=repr))
""")],
      [('SS["b";3;"a";"-"]', '["-";3;"a";"b"]\n'),
       ('SS["ab";"a";12]', '[12;"a";"ab"]\n')])
plant("s127-alternate-flags", "C31",
      "the alternative of two patterns has only the flags they share",
      "an alternative of patterns with different flags",
      [("ptypes.py", """        return Pattern(f"{self._raw}|{other._raw}",
                       self._flags | other._flags)
""", """        return Pattern(f"{self._raw}|{other._raw}",
                       self._flags & other._flags)
""")],
      [('-`a`,`b`', ''),
       ('"AbB"@(-`a`,`b`)', '["A";"b";"B"]\n')])
plant("s128-replace-backslash", "C29",
      "replacing matches of a pattern by a string interprets the backslashes of the string",
      "a pattern, a match and a replacement string with a backslash",
      [("execution.py", """                    replacement = str(new).replace("\\\\", "\\\\\\\\")
""", """                    replacement = str(new)
""")],
      [('"abc"R`b`"x\\\\y"', 'ax\\\\yc\n'),
       ('"abc"R`b`"\\g<0>"', 'a\\g<0>c\n'),
       ('("abc"R`(b)`"\\1")', 'a\\1c\n')])
plant("s130-outformat-kept", "C38",
      "a run without a list format keeps the one of the run before",
      "two runs in one process, the second one without a list format",
      [("execution.py", """        List.outFormat = listFormat
""", """        if listFormat is not None or not List.outFormat:
            List.outFormat = listFormat
""")],
      py=r"""
import io, contextlib
import pip
def go(*argv):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        pip.pip(argv=list(argv), interactive=False)
    return buf.getvalue()
assert go("-e", "[1;2]") == "12\n"
assert go("-s", "-e", "[1;2]") == "1 2\n"
assert go("-e", "[1;2]") == "12\n"
""")
plant("s131-argstring-empty", "C34",
      "in a string of arguments an empty quoted argument disappears",
      "an argument string with a pair of quotes with nothing in between",
      [("pip.py", """                    if buffer is not None:
                        argv.append(buffer)
""", """                    if buffer:
                        argv.append(buffer)
""")],
      py=r"""
import io, contextlib
import pip
def go(argv):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        pip.pip(argv=argv, interactive=False)
    return buf.getvalue()
assert go("-p -e g 1 2") == '[1;2]\n'
assert go("-p -e g '' 2") == '["";2]\n'
assert go("-p -e g 1''2 \"\"") == '[12;""]\n'
""")
plant("s132-argstring-mixed", "C34",
      "in a string of arguments the other kind of quote closes a quoted part",
      "an argument string with an apostrophe inside of double quotes",
      [("pip.py", """                    elif quote == char:
                        # Close quote
                        quote = None
                    else:
                        # Already inside the other type of quote
                        buffer += char
""", """                    elif quote == char or char == "'":
                        # Close quote
                        quote = None
                    else:
                        # Already inside the other type of quote
                        buffer += char
""")],
      py=r"""
import io, contextlib
import pip
def go(argv):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        pip.pip(argv=argv, interactive=False)
    return buf.getvalue()
assert go("-p -e 'g' 1 2") == '[1;2]\n'
assert go("-p -e g \"it's ok\"") == '["it\'s ok"]\n'
""")
plant("s133-repl-rest-of-line", "C36",
      "when the last line of a REPL input is a command, the value of an expression before it is not kept",
      "a line with an expression and a command",
      [("pip.py", """                        state.PRINT(state.REPR(result))
                        state.updateHistoryVars(result)
""", """                        state.PRINT(state.REPR(result))
                        if not isinstance(parse_tree[-1], list) or len(
                                parse_tree) < 2 or parse_tree[-1] is statement:
                            state.updateHistoryVars(result)
""")],
      [(['-R'], '5;6+1\n$__\n', 'Pip 1.2.0\nType ;help for more information.\n>> 5\n7\n>> 5\n>> Bye!\n')])
plant("s134-repl-continuation", "C36",
      "a continued REPL input is joined without the line break",
      "an input continued in the middle of a string or next to a comment",
      [("pip.py", """                        code += input(".. ") + "\\n"
""", """                        code = code[:-1] + input(".. ") + "\\n"
""")],
      [(['-R'], '"a\nb"\n', 'Pip 1.2.0\nType ;help for more information.\n>> .. "a\nb"\n>> Bye!\n'),
       (['-R'], '[1\n2]\n', 'Pip 1.2.0\nType ;help for more information.\n>> .. [1;2]\n>> Bye!\n')])
plant("s135-ei-start", "C01",
      "an EI command is only split after a closing brace",
      "an else-if after a body without braces",
      [("scanning.py", """            if text == "EI":
""", """            if text == "EI" and (not tokenList or tokenList[-1] != ";"):
""")],
      [('x:0;I x P 1;EI 1 P 2;EL P 3', '2\n'),
       ('x:0;I x{P 1}EI 1 P 2', '2\n')])
plant("s136-indented-comment", "C02",
      "a comment line must start with its semicolon",
      "an indented comment line",
      [("scanning.py", r'''lineCommentRgx = re.compile(r'(\s*\n\s*;| {2}).*')''', r'''lineCommentRgx = re.compile(r'(\s*\n\s?;| {2}).*')''')],
      [('P 1\n\t\t;P 2\nP 3', '1\n3\n3\n'),
       ('P 1\n;P 2\nP 3', '1\n3\n3\n')])
plant("s137-chain-assoc", "C03",
      "a chain of comparisons is not continued after a parenthesised one",
      "three comparisons in a row, with arithmetic in between",
      [("parsing.py", """        elif op is operators.chain and nextOp is operators.chain:
""", """        elif (op is operators.chain and nextOp is operators.chain
              and not (isinstance(left[1], list)
                       and left[1][0] is operators.paren)):
""")],
      [('(3)<4<5', '1\n'),
       ('3<2<1', '0\n'),
       ('(3)<2<1', '0\n')])
plant("s116-range-repr", "C06",
      "a range with the lower bound 0 is displayed with a nil lower bound",
      "a range whose lower bound is explicitly 0, and an operation that tells the two apart",
      [("ptypes.py", """        lower = self._lower if self._lower is not None else "()"
""", """        lower = self._lower or "()"
""")],
      [('RP(0,5)', '(0,5)\n'),
       ('RP(0,())', '(0,())\n'),
       ('R:5;RP,5', '((),5)\n')])
plant("s119-unary-range-empty", "C10",
      "a unary item-wise operator leaves an empty range as it is",
      "an empty range as operand",
      [("execution.py", """                if argsToExpand and len(args) == 1:
                    # Single argument to unary op needs expansion
                    result = List(""", """                if (argsToExpand and len(args) == 1
                        and isinstance(args[0], Range)
                        and args[0].isEmpty()):
                    result = args[0]
                elif argsToExpand and len(args) == 1:
                    # Single argument to unary op needs expansion
                    result = List(""")],
      [('RP AB,0', '[]\n'),
       ('RP AB(5,3)', '[]\n'),
       ('RP AB,2', '[0;1]\n')])
plant("s141-min-keyed", "C41",
      "the minimum of numbers and lists side by side is not defined but fails",
      "MIN of a list that has both numbers and lists",
      [("execution.py", """                return min(iterable, key=lambda x:x.toNumber())
            except AttributeError:
                self.err.warn("Argument to MIN contains non-numeric value:",
                              iterable)
                return nil
            except TypeError:
""", """                return min(iterable, key=lambda x:x.toNumber())
            except AttributeError:
                self.err.warn("Argument to MIN contains non-numeric value:",
                              iterable)
                return nil
            except ArithmeticError:
""")],
      [('[MN[1;[2]];7]', '[();7]\n'),
       ('MN[3;1;2]', '1\n')])
plant("s142-max-last", "C41",
      "the maximum of equal numbers is the last one",
      "numbers that are equal but written differently",
      [("execution.py", """                return max(iterable, key=lambda x:x.toNumber())
""", """                return max(reversed(list(iterable)),
                           key=lambda x:x.toNumber())
""")],
      [('MX["1";"1.0"]', '1\n'),
       ('MX["2x";"2y";1]', '2x\n'),
       ('MX[1;2]', '2\n')])
plant("s143-getrval-copy", "C19",
      "the value of a whole variable is only copied when it is a list",
      "a string variable changed in place while its former value is in use",
      [("execution.py", """            return result.copy()
        else:
            self.err.die("Implementation error: unexpected type\"""", """            if isinstance(result, Scalar) and not expr.sliceList:
                return result
            return result.copy()
        else:
            self.err.die("Implementation error: unexpected type\"""")],
      [('x:"abc";x.(x@0:"z")', 'abcz\n'),
       ('x:[1;2];xCB(x@0:5)', '[]\n')])
plant("s145-filterindex-item", "C26",
      "filtering indexes with a function passes the item as a number",
      "an item that is no plain number",
      [("execution.py", """                        if self.functionCall(function, [Scalar(index), item]))
        else:
            self.err.warn("Unimplemented argtypes for FILTERINDEXES:",
""", """                        if self.functionCall(function, [Scalar(index), item]
                                             if index else [item, item]))
        else:
            self.err.warn("Unimplemented argtypes for FILTERINDEXES:",
""")],
      [('{aQ0}FX"xyz"', '[0]\n'),
       ('{b}FX[0;1;2]', '[1;2]\n')])
plant("s146-mapsum-start", "C26",
      "summing mapped items starts with the first result",
      "mapped results that are no plain numbers",
      [("execution.py", """        result = Scalar("0")
        plus = ops.opsByArity[2]["+"]
        for item in self.MAP(function, iterable):
            result = self.evaluate([plus, result, item])
        return result
""", """        result = None
        plus = ops.opsByArity[2]["+"]
        for item in self.MAP(function, iterable):
            result = (item if result is None
                      else self.evaluate([plus, result, item]))
        return SCALAR_EMPTY if result is None else result
""")],
      [('_MS["x"]', '0\n'),
       ('_MS[]', '0\n'),
       ('_MS[1;2]', '3\n')])
plant("s147-randrange-nil", "C32",
      "a random number below a bound is never the one before the bound",
      "the nil lower bound, and the largest outcome",
      [("execution.py", """            if lhs is nil:
                lhs = 0
            else:
                lhs = int(lhs)
            rhs = int(rhs)
            if lhs >= rhs:
                self.err.warn("No numbers to choose from in RANDRANGE:",
                              lhs, "to", rhs)
                return nil
            return Scalar(random.randrange(lhs, rhs))
""", """            fromNil = lhs is nil
            if fromNil:
                lhs = 0
            else:
                lhs = int(lhs)
            rhs = int(rhs)
            if lhs >= rhs:
                self.err.warn("No numbers to choose from in RANDRANGE:",
                              lhs, "to", rhs)
                return nil
            if fromNil and rhs > 1:
                rhs -= 1
            return Scalar(random.randrange(lhs, rhs))
""")],
      [('MX({()RR2}M,50)', '1\n')])
plant("s149-seed-number", "C32",
      "seeding uses the numeric value of the seed",
      "two seeds that are different strings but equal numbers",
      [("execution.py", """        random.seed(str(rhs))
""", """        random.seed(str(rhs.toNumber()) if rhs else str(rhs))
""")],
      [('r:"abc";x:RR1000000;r:"xyz";x=RR1000000', '0\n')])
plant("s150-splitat-negative", "C28",
      "splitting at negative indices counts them from the wrong place",
      "a negative index that is the negated length",
      [("execution.py", """                if i in indices or i - length in indices:
""", """                if i in indices or (i and i - length in indices):
""")],
      [('"abc"^@(-3)', '["";"abc"]\n'),
       ('"abc"^@[-3;1]', '["";"a";"bc"]\n'),
       ('"abc"^@1', '["a";"bc"]\n'),
       ('"abc"^@0', '["";"abc"]\n')])
plant("s151-weave-nil", "C28",
      "weaving stops at the end of the second of two iterables when that is empty",
      "an empty right operand",
      [("execution.py", """            if iterable2 is nil:
                iterable2 = SCALAR_EMPTY
""", """            if iterable2 is nil or not iterable1:
                iterable2 = SCALAR_EMPTY
""")],
      [('"" WV "abc"', 'abc\n'),
       ('[]WV[1;2]', '[1;2]\n'),
       ('"ab"WV"c"', 'acb\n'),
       ('0WV"abc"', '0abc\n')])
plant("s152-todigits-neg", "C30",
      "the digits of a negative number are only negative up to the first zero",
      "a negative number with a zero digit",
      [("execution.py", """                result.insert(0, Scalar(sign * digit))
""", """                if digit == 0:
                    sign = 1
                result.insert(0, Scalar(sign * digit))
""")],
      [('TD(-5)', '[-1;0;-1]\n'),
       ('(-101)TD10', '[-1;0;-1]\n'),
       ('(-7)TD2', '[-1;-1;-1]\n')])
plant("s153-tobase-upper", "C30",
      "numerals in bases above 32 misspell the largest digits",
      "a digit above 31",
      [("execution.py", """            alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
            result = ""
""", """            alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVXWYZ"
            result = ""
""")],
      [('33TB36', 'X\n'),
       ('32TB36', 'W\n'),
       ('(1295TB36)FB36', '1295\n')])
plant("s154-warn-print", "C35",
      "with warnings on, assigning to a value that is no variable gives nil",
      "an assignment to a value and the -w flag",
      [("execution.py", """            self.err.warn("Attempting to assign to non-lvalue", lhs)
            return rhs  # Gives""", """            self.err.warn("Attempting to assign to non-lvalue", lhs)
            if self.err.warnings and isinstance(lhs, Range):
                return nil
            return rhs  # Gives""")],
      [(['-w', '-e', 'P((3,5):7)'], '', '7\n7\n'),
       (['-w', '-e', 'P(4+:3)'], '', '7\n7\n')])
plant("s156-loopregex-swap", "C23",
      "a LOOPREGEX with a string first and a pattern second searches for the string",
      "the two header operands the other way round",
      [("execution.py", """        if isinstance(regex, Scalar) and isinstance(string, Pattern):
            regex, string = string, regex
        elif isinstance(regex, Scalar):
            regex = self.REGEX(regex)
        if isinstance(regex, Pattern) and isinstance(string, Scalar):
            # TBD""", """        if isinstance(regex, Scalar) and isinstance(string, Pattern):
            regex, string = self.REGEX(regex), Scalar(string)
        elif isinstance(regex, Scalar):
            regex = self.REGEX(regex)
        if isinstance(regex, Pattern) and isinstance(string, Scalar):
            # TBD""")],
      [('LR"abc"`[a-b]`P$0', 'a\nb\n'),
       ('LR`[a-b]`"abc"P$0', 'a\nb\n')])
plant("s157-send-chain", "C22",
      "a send expression with several indices on a value ignores those after a string",
      "more than one index",
      [("execution.py", """            for index in tail:
                value = self.AT(value, index)
            return value
""", """            for index in tail:
                if isinstance(value, Scalar) and len(value) == 1:
                    break
                value = self.AT(value, index)
            return value
""")],
      [('("abc" 1 `x`)', '[]\n'),
       ('(["ab";"cd"] 1 0)', 'c\n'),
       ('("abc" 1 0)', 'b\n'),
       ('("abc" 1 u)', '')])
plant("s158-send-function-late", "C22",
      "a function stored in a list that is indexed by a send expression is not looked up",
      "a send expression whose head is an indexed variable",
      [("execution.py", """            headRval = self.getRval(head)
            if isinstance(headRval, Block):
                head = headRval
""", """            headRval = self.getRval(head)
            if isinstance(headRval, Block) and len(head.sliceList) < 2:
                head = headRval
""")],
      [('x:[{a+1}];((x 0) 5)', '6\n'),
       ('x:[[{a+1}]];((x 0 0) 5)', '6\n')])
plant("s159-zipdefault-one", "C28",
      "zipping with a default drops the default for the last list",
      "a last list that is shorter than the others by more than one",
      [("execution.py", """                return List(List(tuple) for tuple in
                            itertools.zip_longest(*lists, fillvalue=default))
""", """                size = max(map(len, lists), default=0)
                return List(List(tuple) for tuple in
                            list(itertools.zip_longest(*lists, fillvalue=default))
                            [:max(size, 1) if size < 4 else 4 + size % 4])
""")],
      [('ZD[,9;,3]', '[[0;0];[1;1];[2;2];[3;""];[4;""];[5;""];[6;""];[7;""];[8;""]]\n'),
       ('ZD[,4;,3]', '[[0;0];[1;1];[2;2];[3;""]]\n'),
       ('ZD[,8;,3]', '[[0;0];[1;1];[2;2];[3;""];[4;""];[5;""];[6;""];[7;""]]\n')])
plant("s160-unique-numbers", "C28",
      "numbers that are equal but written differently count as duplicates",
      "a list with 1 and 1.0",
      [("execution.py", """                if item not in previousItems:
                    result.append(item)
                    previousItems.add(item)
""", """                if str(item).removesuffix(".0") not in previousItems:
                    result.append(item)
                    previousItems.add(str(item).removesuffix(".0"))
""")],
      [('UQ[1;1.0;2]', '[1;1.0;2]\n'),
       ('UQ[[1;2];12]', '[[1;2];12]\n'),
       ('UQ[1;2;1]', '[1;2]\n')])
plant("s161-transliterate-order", "C29",
      "transliterating uses the first of several replacements for a character",
      "a character that occurs twice in the list of characters to replace",
      [("execution.py", """                mapping[oldChar] = newChar
            result = result""", """                mapping.setdefault(oldChar, newChar)
            result = result""")],
      [('"abca"TR"aa""xy"', 'ybcy\n'),
       ('("abc"TR"aba""xyz")', 'zyc\n')])
plant("s162-trim-range-nil", "C29",
      "trimming by a range without an upper bound trims nothing",
      "an infinite range as amount",
      [("execution.py", """            front = extra.getLower() or 0
            back = extra.getUpper() or 0
""", """            front = (extra.getLower() or 0) if extra.isFinite() else 0
            back = extra.getUpper() or 0
""")],
      [('"abcdef"TM(2,())', 'cdef\n'),
       ('"abcdef"TM(2,1)', 'cde\n')])
plant("s163-range-slice-infinite", "C18",
      "a slice of an infinite range is bounded by the wrong number",
      "an infinite range with a lower bound and a slice with an upper bound",
      [("ptypes.py", """                    newUpper = lower + stop
""", """                    newUpper = (newLower or 0) + stop - (start or 0) if start else stop
""")],
      [('(5,())@,3', '[5;6;7]\n'),
       ('(5,())@(1,3)', '[6;7]\n'),
       ('(,())@,3', '[0;1;2]\n'),
       ('(5,())@<3', '[5;6;7]\n')])
plant("s165-list-slice-once", "C17",
      "slicing a list far below its beginning repeats it one time too few",
      "a slice that starts more than two lengths before the beginning",
      [("ptypes.py", """            while start < 0:
                repList = self._value + repList
                start += length
                stop += length
""", """            while start < 0:
                repList = self._value + repList
                start += length
                if len(repList) < 4 * length:
                    stop += length
""")],
      [('[1;2]@(-9,1)', '[2;1;2;1;2;1;2;1]\n'),
       ('[1;2]@(-3,1)', '[2;1]\n'),
       ('[1;2]@(-5,1)', '[2;1;2;1]\n'),
       ('[1;2]@(-4,-1)', '[1;2;1]\n')])
plant("s166-assign-index-many", "C20",
      "an assignment three levels deep goes to the copy of a slice",
      "three indices, the second of which is negative",
      [("execution.py", """            for index in lval.sliceList[:-1]:
                try:
                    currentVal = currentVal[index]
""", """            for index in lval.sliceList[:-1]:
                try:
                    if isinstance(index, int) and index < -len(currentVal):
                        currentVal = currentVal.copy()
                    currentVal = currentVal[index]
""")],
      [('y:[[1;2];[3;4]];y@(-3)@0:9;y', '[[1;2];[9;4]]\n'),
       ('y:[[1;2];[3;4]];y@(-1)@0:9;y', '[[1;2];[9;4]]\n')])
plant("s167-global-underscores", "C22",
      "history variables are kept per program, not per function",
      "a function call between two statements that use the history",
      [("execution.py", """        if varName in "abcdefg" or re.fullmatch(r"\\$_+", varName):
""", """        if varName in "abcdefg" or re.fullmatch(r"\\$_{1,2}", varName):
""")],
      [('f:{1;2;3;4;0};5;6;7;RP[(f 0);$___]', '[0;5]\n'),
       ('5;6;7;RP$___', '5\n')])
plant("s168-wipe-args", "C25",
      "wiping globals leaves the saved argument variables out when there are more than five arguments",
      "WIPE and six arguments",
      [("execution.py", """        for name, arg in zip("abcde", self.args):
            self.vars["\\\\" + name] = arg.copy()
""", """        for name, arg in zip("abcde", self.args[:5] if len(self.args) < 6
                             else self.args[1:]):
            self.vars["\\\\" + name] = arg.copy()
""")],
      [(['-p', '-e', '[\\a;\\b;\\e]', '1', '2', '3', '4', '5', '6'], '', '[1;2;5]\n'),
       (['-p', '-e', '[\\a;\\b;\\e]', '1', '2', '3', '4', '5'], '', '[1;2;5]\n')])
plant("s169-sqrt-arctan", "C39",
      "the two-operand arctangent ignores the sign of the second operand",
      "a negative second operand",
      [("execution.py", """                return Scalar(math.atan2(lhs.toNumber(), rhs.toNumber()))
""", """                return Scalar(math.atan2(lhs.toNumber(), rhs.toNumber())
                              if rhs.toNumber() >= 0 or lhs.toNumber() != 0
                              else 0.0)
""")],
      [('0AT(-1)', '3.141592653589793\n'),
       ('1AT(-1)', '2.356194490192345\n')])
plant("s170-greedy-comment", "C02",
      "a block comment extends to the last ;} instead of the first",
      "two block comments with code between them",
      [("scanning.py", """r'\\{;.*?;\\}', re.DOTALL""", """r'\\{;.*;\\}', re.DOTALL""")],
      [('P 1{;a;}P 2{;b;}P 3', '1\n2\n3\n3\n'),
       ('x:{;a;}4\nP x{;b;}', '4\n4\n')])
plant("s171-escaped-string-quote", "C01",
      "an escaped string cannot contain a quote that is not escaped",
      'an escaped string with a plain quote in it',
      [("scanning.py", r'''(\\[^"]|[^\\])*\\"''', r'''(\\[^"]|[^"\\])*\\"''')],
      [('\\"a"b\\"', 'a"b\n'),
       ('\\"""\\".1', '""1\n')])
plant("s173-pip-prefix", "C01",
      "a run of uppercase letters that begins with PIP is split after the third letter",
      "a longer run of uppercase letters that begins with PIP",
      [("scanning.py", """if text == "PIP":""", """if text[:3] == "PIP":""")],
      [('PIPI', '3.141592653589793\n'),
       ('PIP', "Pip isn't Python.\nPip isn't Perl.\nPip isn't PHP.\n\nWhat is Pip?\n\nPip is procedural.\nPip is portable.\nPip is precise.\nPip is pithy.\nPip is Pip!\n"),
       ('x:PIPI;x', '3.141592653589793\n')])
plant("s175-assign-assoc", "C03",
      "compute-and-assign operators keep the associativity of the plain operator",
      "two compute-and-assign operators in a row",
      [("parsing.py", """            op.associativity = assignOp.associativity
""", "")],
      [('a:5;b:3;a+:b-:1;[a;b]', '[7;2]\n'),
       ('a:5;b:3;a+:b+:1;[a;b]', '[9;4]\n'),
       ('a:5;b:3;a.:b.:1;[a;b]', '[531;31]\n')])
plant("s178-empty-name-list", "C04",
      "an empty list of names in a for-loop header is accepted",
      "F [] ...",
      [("parsing.py", """        if len(nameList) == 1:
            # No names in the list, just the enlist operator
            err.die""", """        if len(nameList) == 0:
            # No names in the list, just the enlist operator
            err.die""")],
      [('F[]l{P 1}P 2', ''),
       ('F[a[]]l{P 1}P 2', '')])
plant("s177-for-incomplete", "C36",
      "an unfinished list of names in a for-loop header cannot be continued on the next line",
      "a REPL line ending within the names of a for loop",
      [("parsing.py", """            err.die("List of names in for-loop header cannot be empty",""", """            err.die("Names in for-loop header cannot be empty","""),
       ("parsing.py", """        err.die("Unterminated list of names in for-loop header",
                errorClass=IncompleteSyntax)""", """        err.die("Unterminated list of names in for-loop header",
                errorClass=BadSyntax)""")],
      [(['-R'], 'F[a\nb][1 2;3 4]P a\n5\n', 'Pip 1.2.0\nType ;help for more information.\n>> .. 1\n2\n3\n4\n>> 5\n>> Bye!\n')])
plant("s179-repl-indented", "C36",
      "an indented comment is taken for a REPL command",
      "a REPL line that is a comment after a blank",
      [("pip.py", """            if code.startswith(";") and code[1:].strip():
                repl_command, *repl_cmd_args = code[1:].lower().split()""", """            if code.lstrip().startswith(";") and code.lstrip()[1:].strip():
                repl_command, *repl_cmd_args = (
                    code.lstrip()[1:].lower().split())""")],
      [(['-R'], 'a:4\n ;exit\na\n', 'Pip 1.2.0\nType ;help for more information.\n>> 4\n>> >> 4\n>> Bye!\n')])
plant("s182-repl-rest", "C36",
      "after a fatal error in a statement the REPL carries on with the rest of the line",
      "a REPL line with a statement after one that fails",
      [("pip.py", """            try:
                for statement in parse_tree:
                    result = state.executeStatement(statement)
                    if result is not None:
                        state.PRINT(state.REPR(result))
                        state.updateHistoryVars(result)
            except Exception as err:
                # Besides FatalErrors, this could be a RuntimeError (probably
                # means we exceeded Python's max recursion depth) or an
                # error from a Python function such as chr()
                print("Fatal error:", err, file=sys.stderr)
            except KeyboardInterrupt:
                print("Execution interrupted by user.", file=sys.stderr)
""", """            try:
                for statement in parse_tree:
                    try:
                        result = state.executeStatement(statement)
                        if result is not None:
                            state.PRINT(state.REPR(result))
                            state.updateHistoryVars(result)
                    except Exception as err:
                        # Besides FatalErrors, this could be a RuntimeError
                        # or an error from a Python function such as chr()
                        print("Fatal error:", err, file=sys.stderr)
            except KeyboardInterrupt:
                print("Execution interrupted by user.", file=sys.stderr)
""")],
      [(['-R'], 'a:4;V"(";a:5\na\n', 'Pip 1.2.0\nType ;help for more information.\n>> 4\n>> 4\n>> Bye!\n')])
plant("s184-unparse-glue", "C05",
      "the printed form of a unary operation has no blank after the operator",
      "a unary operator of letters before an uppercase variable name",
      [("parsing.py", """code = f"{op} {operands[0]}\"""", """code = f"{op}{operands[0]}\"""")],
      [('{ST B}', '{ST B}\n'),
       ('{UC B}', '{UC B}\n'),
       ('{-a}', '{- a}\n'),
       ('f:{ST AZ};(V RPf)', '{ST AZ}\n')])
plant("s185-range-repr-zero", "C06",
      "the printed form of a range starting at 0 leaves out the lower bound",
      "a range with an explicit lower bound of 0",
      [("ptypes.py", """        lower = self._lower if self._lower is not None else "()\"""", """        lower = self._lower if self._lower else "()\"""")],
      [('RP(0,5)', '(0,5)\n'),
       ('RP[0,();0,3]', '[(0,());(0,3)]\n')])
plant("s186-int-blanks", "C07",
      "a number after white space is 0 where an integer is needed",
      "a numeric string with leading white space used as an integer",
      [("ptypes.py", """        if m := intRgx.match(self._value.lstrip()):
            return int(m.group())
        else:
            return 0""", """        if m := intRgx.match(self._value):
            return int(m.group())
        else:
            return 0""")],
      [('\'xX" 3"', 'xxx\n'),
       ('[5;6;7]@" 1"', '6\n'),
       ('RP(,"  4")', '((),4)\n')])
plant("s187-ceil-negative", "C09",
      "rounding up to a multiple of a negative number rounds down",
      "rounding up with a negative second operand",
      [("execution.py", '''        """Round lhs to the nearest higher multiple of rhs."""
        if rhs is None:
            precision = 1
        elif isinstance(rhs, Scalar):
            precision = abs(rhs.toNumber())''', '''        """Round lhs to the nearest higher multiple of rhs."""
        if rhs is None:
            precision = 1
        elif isinstance(rhs, Scalar):
            precision = rhs.toNumber()''')],
      [('7>|5', '10\n'),
       ('7>|(-5)', '10\n'),
       ('7>|(-1)', '7\n'),
       ('-7>|(-5)', '')])
plant("s188-range-upper-zero", "C18",
      "a range that ends at 0 has no end after a number is added to it",
      "adding to a range whose upper bound is 0",
      [("execution.py", """                lower += int(lhs)
                if upper is not None:
                    upper += int(lhs)""", """                lower += int(lhs)
                if upper:
                    upper += int(lhs)""")],
      [('RP(-3,0)+2', '(-1,2)\n'),
       ('RP 2+(-3,1)', '(-1,3)\n')])
plant("s190-fold-compare-one", "C11",
      "folding a list of one item on a comparison gives the item",
      "a comparison folded over a list of one item",
      [("execution.py", """                    if len(iterable) == 1:
                        foldValue = SCALAR_ONE
""", """                    if len(iterable) == 1:
                        foldValue = iterable[0]
""")],
      [('$<[5]', '1\n'),
       ('$=[0]', '1\n'),
       ('$<[5;6]', '1\n')])
plant("s195-greater-incomparable", "C15",
      "in comparing lists, an item that is not comparable and not equal decides the comparison",
      "lists with a nil or a nested list against a number before the first difference",
      [("execution.py", """                if self.NUMGREATER(i, j):
                    result = True
                    break
                elif self.NUMGREATER(j, i):
                    result = False
                    break
            if result is None:
                # The two lists were equal as far as they went... but are they
                # the same length?
                try:
                    leftLen = len(lhs)
                except ValueError:
                    # Lhs is infinite Range
                    result = True
                else:
                    try:
                        rightLen = len(rhs)
                    except ValueError:
                        # Rhs is infinite Range
                        result = False
                if result is None:
                    # Neither was an infinite Range, so we can just
                    # compare their lengths directly
                    result = leftLen > rightLen""", """                if self.NUMGREATER(i, j):
                    result = True
                    break
                elif not self.NUMEQUAL(i, j):
                    result = False
                    break
            if result is None:
                # The two lists were equal as far as they went... but are they
                # the same length?
                try:
                    leftLen = len(lhs)
                except ValueError:
                    # Lhs is infinite Range
                    result = True
                else:
                    try:
                        rightLen = len(rhs)
                    except ValueError:
                        # Rhs is infinite Range
                        result = False
                if result is None:
                    # Neither was an infinite Range, so we can just
                    # compare their lengths directly
                    result = leftLen > rightLen""")],
      [('[(),2]>[1,1]', '0\n'),
       ('[();2]>[1;1]', '1\n'),
       ('[[1];2]>[1;1]', '1\n')])
plant("s196-lesseq-incomparable", "C15",
      "a value is less or equal to one it cannot be compared with",
      "a list, number, pattern, function or nil compared with <= to another kind of value",
      [("execution.py", """                    result = leftLen <= rightLen
        else:
            # For non-comparable types, the only way they can be <=
            # is if they are identical and thus equal
            result = lhs == rhs""", """                    result = leftLen <= rightLen
        else:
            # Non-comparable types
            result = not self.NUMGREATER(lhs, rhs)""")],
      [('()<=1', '0\n'),
       ('[1]<=1', '0\n'),
       ('`a`<=`a`', '1\n')])
plant("s197-pattern-eq-flags", "C16",
      "patterns with the same expression and different flags are equal",
      "two patterns that differ only in their flags",
      [("ptypes.py", """                and self._raw == rhs._raw
                and self._flags == rhs._flags)""", """                and self._raw == rhs._raw)""")],
      [('`a`==(-`a`)', '0\n'),
       ('(-`a`)N[`a`]', '0\n'),
       ('[-`a`;`a`]@?`a`', '1\n')])
plant("s199-repeat-grown", "C17",
      "a slice that ends past two lengths repeats the sequence from its already repeated form's start",
      "a slice with a negative start and an end beyond the length",
      [("ptypes.py", """            while start < 0:
                repList = self._value + repList
                start += length
                stop += length
            while stop > len(repList):
                repList += self._value
            return List(repList[start:stop])""", """            while stop > len(repList):
                repList += self._value
            while start < 0:
                repList = self._value + repList
                start += length
            return List(repList[start:stop])""")],
      [('[1;2;3]@(-5,2)', '[2;3;1;2]\n'),
       ('[1;2;3]@(-7,5)', '[3;1;2;3;1;2;3;1;2]\n'),
       ('[1;2;3]@(1,5)', '[2;3;1;2]\n'),
       ('[1;2;3]@(-4,3)', '[3;1;2;3]\n')])
plant("s203-paren-rvalue", "C20",
      "an item in parentheses cannot be assigned to",
      "an assignment whose target is an indexed variable in parentheses",
      [("execution.py", """        # Result of wrapping a single expression in parentheses
        return expr""", """        # Result of wrapping a single expression in parentheses
        if isinstance(expr, Lval) and expr.sliceList:
            return self.getRval(expr)
        return expr""")],
      [('l:[1;2];(l@0):5;l', '[5;2]\n'),
       ('l:[1;2];(l@0)+:5;l', '[6;2]\n'),
       ('x:1;(x):5;x', '5\n')])
plant("s205-fifth-arg", "C22",
      "the fifth argument of a function is not bound to e",
      "a function called with five arguments",
      [("execution.py", """            for name, arg in zip("abcde", argList):""", """            for name, arg in zip("abcd", argList):""")],
      [('({e}1 2 3 4 5)', '5\n'),
       ('({d}1 2 3 4 5)', '4\n'),
       ('({g@4}1 2 3 4 5)', '5\n')])
plant("s206-loop-range", "C23",
      "LOOP on a range runs as often as its upper bound says",
      "LOOP with a range that does not start at 0",
      [("execution.py", """        elif isinstance(count, (List, Range)):
            count = len(count)""", """        elif isinstance(count, List):
            count = len(count)
        elif isinstance(count, Range):
            count = max(0, count.getUpper())""")],
      [('L,3Oh', '100100100'),
       ('L(2,5)O1', '111'),
       ('L(-2,1)O1', '111')])
plant("s207-match-before", "C24",
      "the text before a match is the text before the first occurrence of the matched text",
      "a match whose text also occurs earlier, where it does not match",
      [("execution.py", """Scalar(matchObj.string[:matchObj.start()])""", """Scalar(matchObj.string.split(matchObj.group())[0]
                                if matchObj.group() else
                                matchObj.string[:matchObj.start()])""")],
      [('"abab"@`b$`;$`', 'aba\n'),
       ('"abab"@`ab`;$`', 'ab\n'),
       ('"xax"@`a`;$`', 'x\n')])
plant("s208-arg-e", "C25",
      "the fifth argument of the program is not in the variable for it",
      r"\e with five command-line arguments",
      [("execution.py", """        for name, arg in zip("abcde", self.args):""", """        for name, arg in zip("abcd", self.args):""")],
      [(['-e', '\\e', '--', '1', '2', '3', '4', '5'], '', '5\n')])
plant("s209-mapcoords-last", "C26",
      "mapping over a grid takes the number of columns from the last item",
      "a list of three numbers as the size of the grid",
      [("execution.py", """            if isinstance(rhs[0], Scalar) and isinstance(rhs[1], Scalar):
                rows = range(int(rhs[0]))
                cols = range(int(rhs[1]))""", """            if isinstance(rhs[0], Scalar) and isinstance(rhs[1], Scalar):
                rows = range(int(rhs[0]))
                cols = range(int(rhs[1 if len(rhs) < 3 else -1]))""")],
      [('{a.b}MC[1;2;3]', '[[00;01]]\n'),
       ('{a.b}MC[1;2]', '[[00;01]]\n'),
       ('{a.b}MC[2]', '[[00;01];[10;11]]\n')])
plant("s212-descending-string", "C27",
      "items with the same text come in the opposite order in a descending string sort",
      "a list with different items that have the same text",
      [("execution.py", """            return List(sorted(iterable,
                               key=str,
                               reverse=True))""", """            return List(sorted(iterable, key=str)[::-1])""")],
      [(['-e', 'RP DS[12;[1;2]]'], '', '[12;[1;2]]\n'),
       (['-e', 'RP DS[[1;2];12]'], '', '[[1;2];12]\n'),
       (['-e', 'RP DS[1;3;2]'], '', '[3;2;1]\n')])
plant("s213-permutations-once", "C28",
      "a permutation that occurs several times because items are equal is given once",
      "permutations of a list with equal items",
      [("execution.py", """                return List(List(perm) for perm in result)""", """                return List(List(perm) for perm in dict.fromkeys(result))""")],
      [('PM[1;1;2]', '[[1;1;2];[1;2;1];[1;1;2];[1;2;1];[2;1;1];[2;1;1]]\n'),
       ('PM[1;2]', '[[1;2];[2;1]]\n')])
plant("s214-unweave-few", "C28",
      "unweaving into more strands than there are items leaves out the empty ones",
      "unweaving a short sequence into many strands",
      [("execution.py", """            result = [[] for i in range(strands)]""", """            result = [[] for i in range(max(1, min(strands, len(iterable))))]""")],
      [('[1;2]UW4', '[[1];[2];[];[]]\n'),
       ('"ab"UW3', '["a";"b";""]\n'),
       ('[1;2;3]UW2', '[[1;3];[2]]\n'),
       ('[]UW2', '[[];[]]\n')])
plant("s220-join-leading-empty", "C29",
      "joining leaves out leading items that are empty or zero",
      "a joined list that starts with an empty string or 0",
      [("execution.py", """                if result is None:
                    result = item
                else:
                    if sep is not None:""", """                if not result:
                    result = item
                else:
                    if sep is not None:""")],
      [('[x;1;2]J","', ',1,2\n'),
       ('[0;1]J","', '0,1\n'),
       ('[1;2]J","', '1,2\n')])
plant("s221-delete-class", "C29",
      "characters to delete are taken as a character class",
      "deleting characters among which are - ^ or ]",
      [("execution.py", """            result = str(string).translate({ord(c):None for c in str(chars)})""", """            result = str(string)
            if len(chars) > 0:
                classText = str(chars).replace("\\\\", "\\\\\\\\").replace("]", "\\\\]")
                result = re.sub(f"[{classText}]", "", result)""")],
      [('"a-b^c"DC"-^"', 'abc\n'),
       ('"abc-x"DC"a-c"', 'bx\n'),
       ('"a^b"DC"^a"', 'b\n'),
       ('"abc"DC"b"', 'ac\n')])
plant("s224-lstrip-once", "C31",
      "stripping from the left by a pattern applies it repeatedly as one expression",
      "a pattern with an anchor",
      [("execution.py", r'''                oldString = str(string)
                beginning = re.compile(rf"\A(?:{patternStr})",
                                       extra.asRegex().flags)
                newString = beginning.sub("", oldString)
                while oldString != newString:
                    oldString = newString
                    newString = beginning.sub("", oldString)
                return Scalar(newString)
            elif extra is None:
                return Scalar(str(string).lstrip())''', r'''                beginning = re.compile(rf"\A(?:{patternStr})+",
                                       extra.asRegex().flags)
                return Scalar(beginning.sub("", str(string)))
            elif extra is None:
                return Scalar(str(string).lstrip())''')],
      [('"aab"|>`^a`', 'b\n'),
       ('"aab"|>`a`', 'b\n'),
       ('"abab"|>`ab`', '\n')])
plant("s225-fromdigits-int", "C30",
      "a fractional base of a digit list is truncated",
      "converting from digits with a base that is no integer",
      [("execution.py", """            base = base.toNumber()
        else:
            self.err.warn("Unimplemented base type for FROMDIGITS:",""", """            base = int(base)
        else:
            self.err.warn("Unimplemented base type for FROMDIGITS:",""")],
      [('[1;0;1]FD2.5', '7.25\n'),
       ('[1;0;1]FD2', '5\n')])
plant("s226-alternate-flags", "C31",
      "the alternative of two patterns has the flags of the first only",
      "an alternative whose second pattern has flags",
      [("ptypes.py", """        return Pattern(f"{self._raw}|{other._raw}",
                       self._flags | other._flags)""", """        return Pattern(f"{self._raw}|{other._raw}",
                       self._flags)""")],
      [('"aB"@(`a`,-`b`)', '["a";"B"]\n'),
       ('"aB"@(-`b`,`a`)', '["a";"B"]\n')])
plant("s227-fullmatch-end", "C31",
      "a full match is a match at the start that happens to reach the end",
      "a pattern whose first way to match is too short",
      [("execution.py", """            matchObj = regex.asRegex().fullmatch(str(string))
            if matchObj:""", """            matchObj = regex.asRegex().match(str(string))
            if matchObj and matchObj.end() == len(string):""")],
      [('"ab"~=`a|ab`', '1\n'),
       ('"ab"~=`a.`', '1\n'),
       ('"ab"~=`a*?b*?`', '1\n')])
plant("s236-stdin-lines", "C34",
      "empty lines at the end of a program read from standard input are dropped",
      "a program from standard input that ends in a newline character literal",
      [("pip.py", """            program = program[:-1]""", """            program = program.rstrip("\\n")""")],
      [(['-i'], "P 1;A'\n\n", '1\n10\n'),
       (['-i'], '5\n', '5\n'),
       (['-iv'], '5\n\n\n', '3 bytes (UTF-8), 3 characters\n\n5\n\n[Number(5)]\n\n5\n')])
plant("s240-regex-shared", "C38",
      "compiled expressions are shared by all patterns with the same text",
      "the same text as a pattern with and without flags",
      [("ptypes.py", """    def asRegex(self):
        if not self._compiled:
            self._compiled = re.compile(self._raw, self._flags)
        return self._compiled""", """    _cache = {}

    def asRegex(self):
        if self._raw not in self._cache:
            self._cache[self._raw] = re.compile(self._raw, self._flags)
        return self._cache[self._raw]""")],
      [('["aA"@`a`;"aA"@(-`a`)]', '[["a"];["a";"A"]]\n'),
       ('"aA"@(-`a`)', '["a";"A"]\n')])
plant("s242-log2-quotient", "C39",
      "the binary logarithm is a quotient of natural logarithms",
      "binary logarithms of powers of two such as 2 to the 29th",
      [("execution.py", """                result = math.log2(number.toNumber())""", """                result = math.log(number.toNumber()) / math.log(2)""")],
      [('LB(2**29)', '29\n'),
       ('LB 8', '3\n'),
       ('LB 2**29', '29\n'),
       ('(LB2**29)', '29\n'),
       ('LB1024', '10\n')])
plant("s244-longer-infinite", "C41",
      "an infinite range is longer than another infinite range",
      "comparing the lengths of two infinite ranges",
      [("execution.py", """                if not isinstance(lhs, Range):
                    result = False
                elif not isinstance(rhs, Range):
                    result = True
                else:
                    result = (lhs.getUpper() is None
                              and rhs.getUpper() is not None)""", """                result = (isinstance(lhs, Range)
                          and lhs.getUpper() is None)""")],
      [('(0,())#>(1,())', '0\n'),
       ('(0,())#>(1,4)', '1\n')])
plant("s245-mapregex-order", "C41",
      "the function given last to MR takes the pattern for the text",
      "MR with its function as the third operand",
      [("execution.py", """        elif isinstance(string, Block):
            lhs, string = string, lhs
        if isinstance(regex, Scalar) and isinstance(string, Pattern):""", """        elif isinstance(string, Block):
            lhs, regex, string = string, lhs, regex
        if isinstance(regex, Scalar) and isinstance(string, Pattern):""")],
      [('"a.b"MR"."{a.1}', '[".1"]\n'),
       ('"a.b"MR\'.{a.1}', '[".1"]\n'),
       ('"."MR"a.b"{a.1}', '[]\n')])
plant("s246-in-string-items", "C16",
      "membership of a string in a list of strings counts substrings",
      "a needle that is part of an item",
      [("ptypes.py", """    def count(self, item):
        return self._value.count(item)""", """    def count(self, item):
        if isinstance(item, Scalar) and len(item) > 3:
            return sum(isinstance(i, Scalar) and item in i
                       for i in self._value)
        return self._value.count(item)""")],
      [('"abcd"N["abcde"]', '0\n'),
       ('"abc"N["abcd"]', '0\n')])
plant("s247-swapcase-title", "C29",
      "swapping case changes every character that is not uppercase to uppercase",
      "a title-case character such as the digraph Dz",
      [("execution.py", """            return Scalar(str(rhs).swapcase())""", """            return Scalar("".join(c.lower() if c.isupper() else c.upper()
                                  for c in str(rhs)))""")],
      [('SC"ǅ"', 'ǅ\n'),
       ('SC"aBß"', 'AbSS\n')])
plant("s248-many-items", "C28",
      "flattening removes one level more when the list has many items",
      "a nested list of more than eight items",
      [("execution.py", """    def FLATTEN(self, iterable):
        if isinstance(iterable, (List, Range)):
            result = List()
            for item in iterable:""", """    def FLATTEN(self, iterable):
        if isinstance(iterable, (List, Range)):
            result = List()
            if isinstance(iterable, List) and len(iterable) > 8:
                iterable = self.FLATTENALL(iterable)
            for item in iterable:""")],
      [('FL[[[1]];2;3;4;5;6;7;8;9]', '[[1];2;3;4;5;6;7;8;9]\n'),
       ('FL[[[1]];2;3]', '[[1];2;3]\n')])
plant("s250-funcs-statements-order", "C12",
      "combining two functions runs the right one's statements first",
      "both operands functions with statements whose effects interfere",
      [("execution.py", "newStatements.extend(arg.getStatements())", "newStatements[:0] = arg.getStatements()")],
      [('({P 1;a}+{P 2;a} 5)', '1\n2\n10\n'),
       ('f:{x:2;a}+{x.:3;x} (f 5)', '28\n')])
plant("s251-zip-rest-empty", "C10",
      "items of the longer list are dropped when the other list is empty",
      "an item-wise operator on a nonempty and an empty list",
      [("execution.py", "                        if lengths[0] > lengths[1]:\n                            result.extend", "                        if lengths[0] > lengths[1] > 0:\n                            result.extend")],
      [('RP([1;2]+[])', '[1;2]\n'),
       ('RP([1;2]+[3])', '[4;2]\n')])
plant("s252-scan-chain-last", "C11",
      "a scan with a comparison compares only the last two items",
      "a comparison scan where an earlier comparison fails and a later one holds",
      [("execution.py", "                        scanResults.append(self.evaluate(chainExpr))\n", "                        scanResults.append(self.evaluate([ops.chain] + chainExpr[-3:]))\n")],
      [('RP(\\$<[1;3;2;4])', '[1;1;0;0]\n'),
       ('RP(\\$=[1 1 1 2 2])', '[1;1;1;0;0]\n')])
plant("s253-range-slice-list", "C18",
      "slicing a range up to its exact end gives a list, not a range",
      "a slice of a range whose end is the range's length",
      [("ptypes.py", "if start >= -length and stop <= length:", "if start >= -length and stop < length:")],
      [('RP(2,7)@(1,5)', '(3,7)\n'),
       ('RP(2,7)@(1,())', '(3,7)\n'),
       ('RP(2,7)@(1,4)', '(3,6)\n')])
plant("s254-tab-comment", "C02",
      "a line comment indented by a tab is not recognised",
      "a comment line that begins with a tab and a semicolon",
      [("scanning.py", r"""lineCommentRgx = re.compile(r'(\s*\n\s*;| {2}).*')""", r"""lineCommentRgx = re.compile(r'(\s*\n *;| {2}).*')""")],
      [('P 1\n\t;P 2\nP 3', '1\n3\n3\n'),
       ('P 1\n  ;P 2\nP 3', '1\n3\n3\n')])
plant("s255-block-comment-semicolon", "C02",
      "a block comment that contains a semicolon is not closed",
      "a block comment with a semicolon inside",
      [("scanning.py", r"""blockCommentRgx = re.compile(r'\{;.*?;\}', re.DOTALL)""", r"""blockCommentRgx = re.compile(r'\{;[^;]*;\}', re.DOTALL)""")],
      [('P 1{; a;b ;}P 2', '1\n2\n2\n'),
       ('P 1{; ab ;}P 2', '1\n2\n2\n')])
plant("s256-char-newline", "C01",
      "a quote before a newline is no character literal",
      "the character literal of a newline inside a program",
      [("scanning.py", r"""charRgx = re.compile(r"'(.|\n)")""", r"""charRgx = re.compile(r"'.")""")],
      [("x:'\n;A x", '10\n'),
       ("A'a", '97\n')])
plant("s257-dollar-digits", "C01",
      "names such as $a1 end before the digit",
      "a long variable name with a digit in it",
      [("scanning.py", r"""|\$[a-z][a-z0-9_]*""", r"""|\$[a-z][a-z_]*""")],
      [('$a1:5 P $a1 $a:7 P $a1', '5\n5\n5\n'),
       ('$ab:5 P $ab', '5\n5\n')])
plant("s258-argv-quote-join", "C34",
      "a quote inside a word of a command-line string drops what came before it",
      "a command line given as a string, with a quote in the middle of a word",
      [("pip.py", """                        quote = char
                        buffer = buffer or \"\"""", """                        quote = char
                        buffer = \"\"""")],
      py=r"""
import io, contextlib, pip
out = io.StringIO()
with contextlib.redirect_stdout(out):
    pip.pip("RP[a b]", 'ab"c d"e "x"')
sys.exit(not out.getvalue().startswith('["abc de";"x"]'))
""")
plant("s259-debug-format", "C34",
      "-d with another list format uses that format, not the representation",
      "-d together with -s",
      [("pip.py", """    listFormat = ("p" if options.repr else
                  "P" if options.reprlines else
                  "s" if options.space else
""", """    listFormat = ("s" if options.space else
                  "p" if options.repr else
                  "P" if options.reprlines else
""")],
      [(['-ds', '-e', '[1 2]'], '', '5 bytes (UTF-8), 5 characters\n\n[ 1 2 ]\n\n[[Operator(LIST,LIST,1,44,L), Number(1), Number(2)]]\n\n[1;2]\n'),
       (['-d', '-e', '[1 2]'], '', '5 bytes (UTF-8), 5 characters\n\n[ 1 2 ]\n\n[[Operator(LIST,LIST,1,44,L), Number(1), Number(2)]]\n\n[1;2]\n')])
plant("s260-wipe-keeps", "C25",
      "WG keeps the variables that have no predefined value",
      "WG after assigning variables such as ZZ or $abc",
      [("execution.py", """        self.vars = {
            "_": Block""", """        if not hasattr(self, "vars"):
            self.vars = {}
        self.vars.update({
            "_": Block"""), ("execution.py", """            "XY": Pattern("[aeiouy]"),
            }
""", """            "XY": Pattern("[aeiouy]"),
            })
""")],
      [('ZZ:4 WG RP ZZ', '()\n'),
       ('$ab:4 WG RP $ab', '()\n'),
       ('x:4 WG RP x', '""\n')])
plant("s262-input-stripped", "C34",
      "blanks at the end of input lines are lost",
      "q on a line of standard input that ends with a space",
      [("execution.py", "            line = Scalar(input())", "            line = Scalar(input().rstrip())")],
      [(['-e', 'RP q'], 'ab \n', '"ab "\n'),
       (['-e', 'RP q'], ' ab\n', '" ab"\n')])
plant("s264-splitat-wrap", "C28",
      "a negative index to split at that is out of range wraps around again",
      "splitting at an index below minus the length",
      [("execution.py", "                if i in indices or i - length in indices:", "                if i in indices or any(j < 0 and (i - j) % length == 0 for j in indices):")],
      [('RP("abcd"^@-5)', '["abcd"]\n'),
       ('RP("abcd"^@-1)', '["abc";"d"]\n')])
plant("s265-sort-string-list", "C27",
      "strings are sorted as lists of numbers sort when all are numeric",
      "sorting as strings, numbers with different numbers of digits",
      [("execution.py", "            return List(sorted(iterable, key=str))", "            return List(sorted(iterable, key=lambda i: (len(str(i)), str(i)) if str(i).isdigit() else (0, str(i))))")],
      [('RP SS[10;9;2]', '[10;2;9]\n'),
       ('RP SS["b";"a"]', '["a";"b"]\n')])
plant("s268-tonumber-space", "C07",
      "a string that starts with a newline or tab has value 0",
      "a number after leading white space other than spaces",
      [("ptypes.py", "        if m := pyFloatRgx.match(self._value.lstrip()):", "        if m := pyFloatRgx.match(self._value.lstrip(\" \")):")],
      [('P("\n1.5"+1)', '2.5\n2.5\n'),
       ('P("  1.5"+1)', '2.5\n2.5\n')])
plant("s269-leading-zeros", "C07",
      "numerals with leading zeros count as zero",
      "a number or string written with leading zeros",
      [("ptypes.py", "intRgx = re.compile(r\"-?\\d+\")", "intRgx = re.compile(r\"-?[1-9]\\d*|0\")")],
      [('P("007"+1)', '8\n8\n'),
       ('P"007"X 2 P #(1,"03")', '007007\n2\n2\n'),
       ('P "07"+0', '7\n7\n')])
plant("s270-list-count-type", "C16",
      "counting in a list of lists compares only the first items",
      "lists in a list that share their first item",
      [("ptypes.py", "        return self._value.count(item)", "        return sum(1 for i in self._value if i == item or type(i) is type(item) is List and len(i) == len(item) > 2 and i._value[:2] == item._value[:2])")],
      [('P([1;2;3]N[[1;2;3];[1;2;4]])', '1\n1\n'),
       ('P([1;2]N[[1;2];[1;3]])', '1\n1\n')])
plant("s271-empty-list-less", "C15",
      "the empty list is not less than other lists as strings",
      "LT of the empty list and a longer one",
      [("execution.py", "                result = len(lhs) < len(rhs)\n        else:\n            result = False\n        return Scalar(result)\n\n    def STRLESSEQ", "                result = len(lhs) <= len(rhs) - 1 and bool(lhs)\n        else:\n            result = False\n        return Scalar(result)\n\n    def STRLESSEQ")],
      [('P([]#<[1])', '1\n1\n'),
       ('P([] LT [1])', '1\n1\n'),
       ('P([] LT [])', '0\n0\n'),
       ('P([1] LT[1;2])', '1\n1\n')])
plant("s272-mapunpack-string", "C26",
      "mapping with unpacked arguments passes a string item whole",
      "MU over a list that contains strings of more than one character",
      [("execution.py", "                    arglist = list(item)\n                except ValueError:", "                    arglist = [item] if isinstance(item, Scalar) else list(item)\n                except ValueError:")],
      [('RP({[b a]}MU["ab";[1;2]])', '[["b";"a"];[2;1]]\n'),
       ('RP({[b a]}MU[[3;4];[1;2]])', '[[4;3];[2;1]]\n')])
plant("s273-mappairs-range", "C26",
      "mapping over pairs of an infinite range's finite part starts late",
      "MP over a range with a lower bound",
      [("execution.py", "            return self.MAPZIP(function, iterable, iterable[1:])", "            return self.MAPZIP(function, iterable, iterable[1:] if not isinstance(iterable, Scalar) or len(iterable) < 10 else iterable[1:-1])")],
      [('RP({a.b}MP "abcdefghijk")', '["ab";"bc";"cd";"de";"ef";"fg";"gh";"hi";"ij";"jk"]\n'),
       ('RP({a.b}MP "abcde")', '["ab";"bc";"cd";"de"]\n')])
plant("s274-todigits-float-base", "C30",
      "digits of a number to a base beyond 256 come out wrong",
      "TD with a base over 256 and a number beyond its square",
      [("execution.py", "                digit = number % base\n                number //= base\n                result.insert(0, Scalar(sign * digit))", "                digit = number % base\n                number = number // base if base < 256 else int(number / base)\n                result.insert(0, Scalar(sign * digit))")],
      [('RP(10**30 TD 1000)', '[1;0;0;0;0;0;0;0;0;0;0]\n'),
       ('RP(10**12 TD 1000)', '[1;0;0;0;0]\n'),
       ('RP(12345 TD 10)', '[1;2;3;4;5]\n')])
plant("s275-frombase-empty", "C30",
      "a blank string has no value in any base",
      "FB of a string with blanks around a numeral",
      [("execution.py", "result = int(str(number).replace(\"_\", \" \"), base)", "result = int(str(number).replace(\"_\", \" \").replace(\" \", \"_\"), base)")],
      [('RP(" 12"FB 3)', '5\n'),
       ('RP("12"FB 3)', '5\n'),
       ('RP("1 2"FB 3)', '()\n')])
plant("s277-strip-pattern-twice", "C31",
      "stripping by a pattern strips at most sixteen matches",
      "a text with more than sixteen matches at its end",
      [("execution.py", """                newString = end.sub("", oldString)
                while oldString != newString:
                    oldString = newString
                    newString = end.sub("", oldString)
                return Scalar(newString)
            elif extra is None:
                return Scalar(str(string).rstrip())""", """                newString = end.sub("", oldString)
                for _ in range(15):
                    oldString = newString
                    newString = end.sub("", oldString)
                return Scalar(newString)
            elif extra is None:
                return Scalar(str(string).rstrip())""")],
      [('RP(("b"."a"X20)<|`a`)', '"b"\n'),
       ('RP(("b"."a"X9)<|`a`)', '"b"\n')])
plant("s278-assign-undefined-index", "C20",
      "an indexed assignment to an undefined variable makes it a list",
      "x@0 assigned where the variable has no value yet",
      [("execution.py", """            self.err.warn("Cannot assign to index of nonexistent variable",
                          base)
            return""", """            self.err.warn("Cannot assign to index of nonexistent variable",
                          base)
            varTable[base] = List([])
            return""")],
      [('ZZ@0:5 RP ZZ', '()\n'),
       ('x@0:5 RP x', '""\n')])
plant("s279-setitem-string-slice", "C20",
      "assigning nothing to a slice of a string at its end appends the old characters",
      "a slice with a negative end in a string",
      [("ptypes.py", "        value = list(self._value)\n        value.__setitem__(index, str(item))", "        value = list(self._value)\n        if isinstance(index, slice) and index.stop == -1:\n            index = slice(index.start, None)\n        value.__setitem__(index, str(item))")],
      [('x:"abcd" x@(1,-1):"Z" RP x', '"aZd"\n'),
       ('x:"abcd" x@(1,2):"Z" RP x', '"aZcd"\n')])
plant("s280-compute-assign-fold", "C13",
      "a unary compute-and-assign applied to an item works on the whole list",
      "U: or -: on an item of a nested list",
      [("execution.py", "            lval = self.evaluate(args[0])\n            normalOp", "            lval = self.evaluate(args[0])\n            if len(args) == 1 and isinstance(lval, Lval) and len(lval.sliceList) > 1:\n                lval.sliceList.pop()\n            normalOp")],
      [('x:[[1;2];[3;4]];-:(x 0 1);RP x', '[[1;-2];[3;4]]\n'),
       ('x:[1;2];-:(x 0);RP x', '[-1;2]\n')])
plant("s281-regex-groups-11", "C24",
      "$$ holds at most nine groups",
      "a match with more than nine groups",
      [("execution.py", "        self.assign(Lval(\"$$\"), List(groups[1:]))", "        self.assign(Lval(\"$$\"), List(groups[1:10]))")],
      [('"abcdefghijkl"~`(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)` RP $$', '["a";"b";"c";"d";"e";"f";"g";"h";"i";"j";"k"]\n'),
       ('"ab"~`(a)(b)` RP $$', '["a";"b"]\n')])
plant("s282-loop-neg-list", "C23",
      "L with a list runs once per item of its first item",
      "L over a list whose first item is a list",
      [("execution.py", "            count = len(count)\n        else:\n            self.err.warn(\"Unimplemented argtype for LOOP:\"", "            count = len(count) if not (isinstance(count, List) and len(count) == 1\n                                       and isinstance(count[0], List)) else len(count[0])\n        else:\n            self.err.warn(\"Unimplemented argtype for LOOP:\"")],
      [('L[[1;2]]P 5', '5\n'),
       ('L[1;2]P 5', '5\n5\n')])
plant("s283-mutable-args-scope", "C22",
      "a sixth argument becomes the function itself",
      "a function called with six or more arguments that uses f",
      [("execution.py", """            for name, arg in zip("abcde", argList):
                self.vars[name] = arg.copy()
            self.vars["f"] = function""", """            self.vars["f"] = function
            for name, arg in zip("abcdef", argList):
                self.vars[name] = arg.copy()""")],
      [('({f}1 2 3 4 5 6)', '{f}\n'),
       ('({f}1 2 3 4 5)', '{f}\n'),
       ('({a}1 2)', '1\n')])
plant("s284-list-joined-nil", "C33",
      "with -S or -l, a nil inside a line is printed as ()",
      "a list format of lines, lists of lists with nil",
      [("ptypes.py", """    def joined(self, separator):
        return separator.join(i.joined(separator)
                              if isinstance(i, (List, Range))
                              else str(i)""", """    def joined(self, separator):
        return separator.join(i.joined(separator)
                              if isinstance(i, (List, Range))
                              else repr(i) if i is nil else str(i)""")],
      [(['-S', '-e', '[[1 () 2]]'], '', '1  2\n'),
       (['-l', '-e', '[[1] [()]]'], '', '1\n\n'),
       (['-s', '-e', '[[1] [()]]'], '', '1 \n')])
plant("s287-pick-wrap", "C21",
      "picking beyond the end takes the last item",
      "PK with an index that wraps around",
      [("execution.py", "    def PICK(self, iterable, index):", "    def PICK(self, iterable, index):\n        if isinstance(index, Scalar) and int(index) > 5:\n            index = Scalar(-1)")],
      [('x:[1;2;3;4] RP(x PK 6) RP x', '[1;2;4]\n'),
       ('x:[1;2;3;4] RP(x PK 1) RP x', '[1;3;4]\n')])
plant("s288-swap-self", "C20",
      "an item cannot be swapped with an item of another item of the same list",
      "swapping x@0 with x@1@0",
      [("execution.py", "        rval1 = self.getRval(lval1)\n        rval2 = self.getRval(lval2)\n        if isinstance(lval1, Lval):", "        rval1 = self.getRval(lval1)\n        rval2 = self.getRval(lval2)\n        if isinstance(lval1, Lval) and isinstance(lval2, Lval) and lval1.base == lval2.base and lval1.sliceList and len(lval2.sliceList) > 1:\n            return lval1\n        if isinstance(lval1, Lval):")],
      [('x:[1;[2;3]] x@0::(x 1 0) RP x', '[2;[1;3]]\n'),
       ('x:[1;2] x@0::x@1 RP x', '[2;1]\n')])
plant("s290-deep-return-groups", "C24",
      "returning from a deep call forgets what the last match was",
      "a call chain more than nine deep after a match",
      [("execution.py", "    def closeScope(self):\n        # Delete this scope's local variables\n        self.scopes.pop()", "    def closeScope(self):\n        # Delete this scope's local variables\n        if len(self.scopes) > 9:\n            self.vars.pop(\"$0\", None)\n        self.scopes.pop()")],
      [('"q"~`q` f:{a?(f a-1)7} (f 12) RP $0', '"q"\n'),
       ('"q"~`q` f:{a?(f a-1)7} (f 2) RP $0', '"q"\n')])
plant("s291-else-eight", "C23",
      "an else branch runs only its first eight statements",
      "an EL branch of nine statements",
      [("execution.py", "            for statement in elseCode:\n                self.executeStatement(statement)", "            for statement in elseCode[:8]:\n                self.executeStatement(statement)")],
      [('I 0{P 1}EL{P 1 P 2 P 3 P 4 P 5 P 6 P 7 P 8 P 9}', '1\n2\n3\n4\n5\n6\n7\n8\n9\n'),
       ('I 0{P 1}EL{P 1 P 2 P 3}', '1\n2\n3\n')])
plant("s292-name-list-semicolon", "C04",
      "a semicolon between the names of a loop header is refused",
      "F[a;b] with semicolons",
      [("parsing.py", "    # A semicolon after the name list is unnecessary but legal\n    if tokenList[0] == \";\":\n        tokenList.pop(0)\n    return nameList", "    # A semicolon after the name list is unnecessary but legal\n    if tokenList[0] == \";\" and tokenList[1] != \"]\":\n        tokenList.pop(0)\n    return nameList")],
      [('F[x y;][[1 2][3 4]]P x', '1\n3\n'),
       ('F[x;y][[1 2][3 4]]P x', '1\n3\n')])
plant("s294-repl-comment-lines", "C36",
      "blanks at the end of an unfinished line of a command are lost",
      "the REPL given a string over two lines with a blank at the end of the first",
      [("pip.py", "                        code += input(\".. \") + \"\\n\"", "                        code = code.rstrip(\" \\n\") + \"\\n\" + input(\".. \") + \"\\n\"")],
      py=r"""
import subprocess
r = subprocess.run([sys.executable, "pip.py", "-R"],
                   input="x:\"a  \nb\"\n#x\n;q\n",
                   capture_output=True, text=True, timeout=60)
sys.exit("5\n" not in r.stdout)
""")
plant("s295-infinite-index", "C18",
      "an item far up an infinite range is off by one",
      "an index beyond 2^31 into an infinite range",
      [("ptypes.py", "            return Scalar(lower + index)\n        elif isinstance(index, (Range, slice)):", "            return Scalar(lower + index if index < 2**31 else lower + index + 1)\n        elif isinstance(index, (Range, slice)):")],
      [('RP(5,())@1E10 RP((5,())@(10**10))', '10000000005\n'),
       ('RP((5,())@7)', '12\n')])
plant("s298-esc-backslash-quote", "C06",
      "strings with a quote and two adjacent backslashes are printed wrongly",
      "a string with a double quote and consecutive backslashes",
      [("ptypes.py", """                return r'\\"' + self._value.replace("\\\\", r"\\\\") + r'\\"'""", """                return r'\\"' + re.sub(r"\\\\+", lambda m: m[0] + "\\\\", self._value) + r'\\"'""")],
      [('RP(C34."\\\\")', '\\""\\\\\\\\\\"\n'),
       ('RP(C34."\\")', '\\""\\\\\\"\n')])
plant("s263-seed-number", "C32",
      "only the integer part of a seed counts",
      "two seeds with the same integer value",
      [("execution.py", "        random.seed(str(rhs))", "        random.seed(int(rhs) if isinstance(rhs, Scalar) else str(rhs))")],
      [('r:1 x:RR 9999999 r:1.5 y:RR 9999999 P x=y', '0\n0\n'),
       ('r:"a" x:RR 9999999 r:"b" y:RR 9999999 P x=y', '0\n0\n')])
plant("s300-deep-item", "C42",
      "an item at the fourth level cannot be reached through a variable",
      "four or more indices in a row on a variable",
      [("execution.py", "                for index in expr.sliceList:\n                    if isinstance(result, PipIterable):", "                for index in expr.sliceList[-1:] if len(expr.sliceList) > 3 and isinstance(expr.sliceList[0], slice) else expr.sliceList:\n                    if isinstance(result, PipIterable):")],
      [('x:[[[[1;2];3]]] RP x@(0,9)@0@0@0', '[1;2]\n'),
       ('x:[[[[1;2];3]]] RP x@0@0@0@0', '1\n')])
plant("s301-inc-literal-list", "C42",
      "incrementing a list that is no variable increments only its first item",
      "U of a literal list or of a function's result",
      [("execution.py", """            self.err.warn("Incrementing non-lvalue", rhs)
""", """            self.err.warn("Incrementing non-lvalue", rhs)
            if isinstance(rhs, List) and len(rhs) > 2:
                result = List([result[0]] + list(rhs[1:]))
""")],
      [('RP U[1;2;3]', '[2;3;4]\n'),
       ('x:[1;2;3] RP U x', '[2;3;4]\n'),
       ('RP U[1;2]', '[2;3]\n')])
plant("s302-prefix-literal-negative", "C42",
      "taking a negative number of leading items of a value that is no variable takes none",
      "H with a negative operand below -1 on a literal or result",
      [("execution.py", """        elif isinstance(lhs, PipIterable) and index is not None:
            # Use the lhs's __getitem__ with a slice argument
            return lhs[index]
        else:
            self.err.warn("Unimplemented argtypes for PREFIX:\"""", """        elif isinstance(lhs, PipIterable) and index is not None:
            # Use the lhs's __getitem__ with a slice argument
            return lhs[max(index.stop, -1):] if -3 == index.stop else lhs[index]
        else:
            self.err.warn("Unimplemented argtypes for PREFIX:\"""")],
      [('RP("abcde"H-3)', '"ab"\n'),
       ('x:"abcde" RP(x H-3)', '"ab"\n'),
       ('RP("abcde"H-2)', '"abc"\n')])
plant("s303-leftof-lval-index", "C42",
      "a one-item list as an index is taken as its item if it comes from a variable",
      "@< with a variable that holds a list of one item",
      [("execution.py", """        if isinstance(rhs, Lval):
            rhs = self.getRval(rhs)
        if isinstance(lhs, Lval) and isinstance(rhs, Scalar):
            index = slice(None, int(rhs))""", """        if isinstance(rhs, Lval):
            rhs = self.getRval(rhs)
            if isinstance(rhs, List) and len(rhs) == 1:
                rhs = rhs[0]
        if isinstance(lhs, Lval) and isinstance(rhs, Scalar):
            index = slice(None, int(rhs))""")],
      [('x:"abc" y:[2] RP(x@<y)', '["ab"]\n'),
       ('x:"abc" RP(x@<[2])', '["ab"]\n'),
       ('x:"abc" y:2 RP(x@<y)', '"ab"\n')])
plant("s304-ifte-lval-list", "C42",
      "the condition of ? is false for a list in a variable whose items are all false",
      "a ? whose condition is a nonempty list of false values in a variable",
      [("execution.py", """        # Ternary if-then-else operator
        test = self.getRval(test)
        if test:""", """        # Ternary if-then-else operator
        isName = isinstance(test, tokens.Name)
        test = self.getRval(test)
        if test if not isName or not isinstance(test, List) else any(test):""")],
      [('x:[0] P x?1 2', '1\n1\n'),
       ('P [0]?1 2', '1\n1\n'),
       ('x:[1] P x?1 2', '1\n1\n')])
plant("s305-send-result-index", "C42",
      "indexing a function's result in parentheses calls the function with the rest",
      "a send expression with three parts whose first is a list of functions",
      [("execution.py", """            value = head
            for index in tail:
                value = self.AT(value, index)
            return value""", """            value = head
            for i, index in enumerate(tail):
                value = self.AT(value, index)
                if i == 1 and isinstance(value, Block) and len(tail) > 2:
                    return self.functionCall(value, tail[2:])
            return value""")],
      [('RP([[{a+1}]] 0 0 5)', '()\n'),
       ('RP([[{a+1}]] 0 0)', '{a + 1}\n')])
plant("s306-pop-literal-scalar", "C42",
      "popping a string that is no variable gives the rest",
      "PO of a literal string of more than two characters",
      [("execution.py", """                self.assign(iterable, iterVal)
        else:
            self.err.warn("Popping from non-lvalue", iterable)
        return item""", """                self.assign(iterable, iterVal)
        else:
            self.err.warn("Popping from non-lvalue", iterable)
            if isinstance(iterVal, Scalar) and len(iterVal) > 1:
                return iterVal
        return item""")],
      [('RP PO"abc"', '"a"\n'),
       ('x:"abc" RP PO x', '"a"\n'),
       ('RP PO"ab"', '"a"\n')])
plant("s307-or-lval-copy", "C42",
      "the second operand of | is 0 if it is an empty list in a variable",
      "| of two false values of which the second is a variable",
      [("execution.py", """            # The lhs was false, so we need to check the rhs
            result = self.getRval(rhs)
        return result
""", """            # The lhs was false, so we need to check the rhs
            result = self.getRval(rhs) or (Scalar(0) if isinstance(rhs, tokens.Name) else self.getRval(rhs))
        return result
""")],
      [('x:l RP(0|x)', '[]\n'),
       ('RP(0|[])', '[]\n'),
       ('x:5 RP(0|x)', '5\n')])
plant("s308-list-lval-nested", "C42",
      "a list of variables inside a list of variables loses its second item when read",
      "[[x y z] y] where all are variables and the inner list has three",
      [("execution.py", """                # This is a List of lvals
                result = List(self.getRval(item) for item in base)""", """                # This is a List of lvals
                result = List(self.getRval(item) for item in base)
                if len(result) == 2 and isinstance(result[0], List) and len(result[0]) == 3:
                    result = List([List([result[0][0], result[0][2]]), result[1]])""")],
      [('x:1 y:2 z:3 RP[[x y z] y]', '[[1;2;3];2]\n'),
       ('x:1 y:2 z:3 RP[[x y] y]', '[[1;2];2]\n'),
       ('x:1 y:2 z:3 RP[[x y z]; 2]', '[[1;2;3];2]\n')])
plant("s309-getr-twice", "C42",
      "a popped value used as the index of a variable is popped twice",
      "an index expression with a side effect",
      [("execution.py", """    def AT(self, lhs, rhs=None):
        if isinstance(rhs, Lval):
            rhs = self.getRval(rhs)
""", """    def AT(self, lhs, rhs=None):
        if isinstance(rhs, Lval):
            if isinstance(rhs.base, List) and isinstance(lhs, Lval):
                lhs = self.getRval(lhs)
                rhs = rhs.base[0]
            rhs = self.getRval(rhs)
""")],
      [('x:"abc" i:1 y:2 RP(x@[y i])', '["c";"b"]\n'),
       ('x:"abc" RP(x@[2 1])', '["c";"b"]\n'),
       ('i:1 y:2 RP("abc"@[y i])', '["c";"b"]\n')])
plant("s311-while-lval-string", "C23",
      "a W loop over a string condition stops at the text 0.0",
      "a condition that is the text 0.0 or 00, inside a loop that continues",
      [("execution.py", "        condVal = self.getRval(cond)\n        while condVal:", "        condVal = self.getRval(cond)\n        while condVal and str(condVal) != \"1.0\":")],
      [('x:"1.0" W x{P 1 x:0}', '1\n'),
       ('x:1 W x{P 1 x:0}', '1\n')])
plant("s312-till-number", "C23",
      "T with a numeric condition other than 0 and 1 runs its body once",
      "T 2 or another constant condition",
      [("execution.py", """        condVal = self.getRval(cond)
        while not condVal:""", """        condVal = self.getRval(cond)
        while not condVal or str(condVal) == "2" and isinstance(cond, tokens.Number) and not setattr(self, "_once", None) and condVal is not None:
            if condVal:
                for statement in code:
                    self.executeStatement(statement)
                break""")],
      [('T 2{P 1}P 5', '5\n5\n'),
       ('T 1{P 1}P 5', '5\n5\n')])
plant("s313-zip-middle", "C28",
      "zipping three lists stops at the shorter of the outer two, with nil in the middle",
      "Z of a list of three lists whose middle one is empty",
      [("execution.py", "                          \", \".join(str(type(item)) for item in noniterables))\n            return nil\n        else:\n            return List(List(tuple) for tuple in zip(*lists))\n", "                          \", \".join(str(type(item)) for item in noniterables))\n            return nil\n        else:\n            if len(lists) == 3 and list2 is None and len(lists[1]) == 0:\n                return List(List((a, nil, b)) for a, b in zip(lists[0], lists[2]))\n            return List(List(tuple) for tuple in zip(*lists))\n")],
      [('RP Z[[1;2];[];[4;5]]', '[]\n'),
       ('RP Z[[1;2];[3];[4;5]]', '[[1;3;4]]\n'),
       ('RP Z[[1;2];[]]', '[]\n')])
plant("s314-join-first-empty", "C29",
      "joining drops the separator after an empty first item",
      "J of a list whose first item is an empty string",
      [("execution.py", """                    if sep is not None:
                        result = self.CAT(result, sep)
                    result = self.CAT(result, item)
            if result is None:""", """                    if sep is not None and len(result) > 0:
                        result = self.CAT(result, sep)
                    result = self.CAT(result, item)
            if result is None:""")],
      [('RP(["";"a"]J",")', '",a"\n'),
       ('RP(["a";""]J",")', '"a,"\n')])
plant("s316-unweave-more", "C28",
      "unweaving into more strands than there are items gives only as many as items",
      "UW of a list into more strands than items",
      [("execution.py", "            result = [[] for i in range(strands)]\n", "            result = [[] for i in range(strands if isinstance(iterable, Scalar) else min(strands, len(iterable) + 2))]\n"),
       ("execution.py", "                result[index % strands].append(item)\n", "                result[index % len(result)].append(item)\n")],
      [('RP([1;2]UW 6)', '[[1];[2];[];[];[];[]]\n'),
       ('RP([1;2]UW 4)', '[[1];[2];[];[]]\n'),
       ('RP("ab"UW 6)', '["a";"b";"";"";"";""]\n')])
plant("s317-tr-repeated", "C29",
      "of two mappings for the same character the first counts",
      "TR with a repeated character to translate",
      [("execution.py", "                mapping[oldChar] = newChar\n", "                mapping.setdefault(oldChar, newChar)\n")],
      [('RP("abc"TR"aa""xy")', '"ybc"\n'),
       ('RP("abc"TR"ab""xy")', '"xyc"\n')])
plant("s318-weave-range-lengths", "C28",
      "weaving a longer range into a shorter list leaves out its last number",
      "WV of a range that is longer than the other operand by two or more",
      [("execution.py", """                    if i < len(iterable2):
                        result.append(iterable2[i])
                if (isinstance(iterable1, Scalar)""", """                    if i < len(iterable2) - (isinstance(iterable2, Range) and len(iterable2) > len(iterable1) + 2):
                        result.append(iterable2[i])
                if (isinstance(iterable1, Scalar)""")],
      [('RP([1;2]WV(0,6))', '[1;0;2;1;2;3;4;5]\n'),
       ('RP([1;2]WV(0,3))', '[1;0;2;1;2]\n'),
       ('RP((0,6)WV[1;2])', '[0;1;1;2;2;3;4;5]\n')])
plant("s319-sortkeyed-list-key", "C27",
      "sorting by a key that is a list ignores all but the first three numbers",
      "SK with list keys that differ in the fourth number",
      [("execution.py", """                    return keyValue.toNumber()
            try:
                return List(sorted(iterable, key=pyKey))
            except TypeError:
                self.err.warn("SORTKEYED cannot""", """                    key = keyValue.toNumber()
                    return key[:3] if isinstance(key, list) else key
            try:
                return List(sorted(iterable, key=pyKey))
            except TypeError:
                self.err.warn("SORTKEYED cannot""")],
      [('RP({a}SK[[1;1;1;2];[1;1;1;1]])', '[[1;1;1;1];[1;1;1;2]]\n'),
       ('RP({a}SK[[1;2];[1;1]])', '[[1;1];[1;2]]\n')])
plant("s320-flatten-range-empty", "C28",
      "flattening leaves empty ranges in the list as they are",
      "FL of a list with an empty range",
      [("execution.py", """                if isinstance(item, (List, Range)):
                    for subitem in item:
                        result.append(subitem)""", """                if isinstance(item, List) or isinstance(item, Range) and (not item.isFinite() or len(item)):
                    for subitem in item:
                        result.append(subitem)""")],
      [('RP FL[1;3,3;2]', '[1;2]\n'),
       ('RP FL[1;3,5;2]', '[1;3;4;2]\n')])
plant("s321-enumerate-pattern", "C28",
      "enumerating a string counts blanks but leaves them out",
      "EN of a string with a blank",
      [("execution.py", "                            for index, item in enumerate(iterable))\n        else:\n            self.err.warn(\"Unimplemented argtype for ENUMERATE:\"", "                            for index, item in enumerate(iterable)\n                            if not isinstance(iterable, Scalar) or str(item) != \" \" or index == 0)\n        else:\n            self.err.warn(\"Unimplemented argtype for ENUMERATE:\"")],
      [('RP EN"a b"', '[[0;"a"];[1;" "];[2;"b"]]\n'),
       ('RP EN"ab"', '[[0;"a"];[1;"b"]]\n'),
       ('RP EN" b"', '[[0;" "];[1;"b"]]\n')])
plant("s323-destructure-extra-nested", "C20",
      "a nested target gets nil if the value beside it is missing",
      "a destructuring with a nested list of targets that is followed by missing values",
      [("execution.py", """                    self.assign(lvalItem, nil)
                else:
                    self.assign(lvalItem, rvalItem)""", """                    self.assign(lvalItem, nil)
                elif isinstance(lvalItem.base, List) and isinstance(rvalItem, Scalar) and len(rvalItem) > len(lvalItem.base):
                    self.assign(lvalItem, List([rvalItem]))
                else:
                    self.assign(lvalItem, rvalItem)""")],
      [('[[x y] z]:["abc";1] RP[x y z]', '["a";"b";1]\n'),
       ('[[x y] z]:["ab";1] RP[x y z]', '["a";"b";1]\n')])
plant("s324-assign-index-scalar-level", "C20",
      "assigning through a string changes the string when the index is the last",
      "x@1@0 where x@1 is a string",
      [("execution.py", "            index = lval.sliceList[-1]\n            try:\n                currentVal[index] = rval.copy()", "            index = lval.sliceList[-1]\n            try:\n                if isinstance(currentVal, Scalar) and len(lval.sliceList) > 1 and len(currentVal) > 3:\n                    index = slice(0, 0)\n                currentVal[index] = rval.copy()")],
      [('x:["abcd";2] x@0@1:"Z" RP x', '["aZcd";2]\n'),
       ('x:["abc";2] x@0@1:"Z" RP x', '["aZc";2]\n')])
plant("s325-wipe-scope", "C25",
      "WG in a function also forgets the function's arguments",
      "WG inside a function that uses its arguments later",
      [("execution.py", "    def WIPEGLOBALS(self):", "    def WIPEGLOBALS(self):\n        if self.callDepth > 0:\n            self.localScope.vars.pop(\"b\", None)")],
      [('f:{WG b.a} P RP(f 1 2)', '21\n21\n'),
       ('f:{WG a.1} P RP(f 1 2)', '11\n11\n')])
plant("s326-chain-mixed", "C15",
      "in a chain of comparisons of strings and numbers, a string comparison after a numeric one is numeric",
      "a chain such as a<b LT c",
      [("execution.py", "    def CHAIN(self, *chain):", "    def CHAIN(self, *chain):\n        if len(chain) == 5 and str(chain[1]) == \"<\" and str(chain[3]) == \"LT\":\n            chain = chain[:3] + (chain[1],) + chain[4:]")],
      [('RP(1<10 LT 9)', '1\n'),
       ('RP(1<9 LT 10)', '0\n'),
       ('RP(10 LT 9)', '1\n')])
plant("s330-list-copy-nested-range", "C19",
      "copies of lists share the lists that come after a range",
      "changing a nested list that follows a range in a copied list",
      [("ptypes.py", "    def copy(self):\n        return List(item.copy() for item in self._value)", "    def copy(self):\n        seen = False\n        items = []\n        for item in self._value:\n            items.append(item if seen and isinstance(item, List) else item.copy())\n            seen = isinstance(item, Range)\n        return List(tuple(items))")],
      [('x:[0,2;[1;2]] y:x y@1@0:9 RP[x y]', '[[(0,2);[1;2]];[(0,2);[9;2]]]\n'),
       ('x:[[1;2];0,2] y:x y@0@0:9 RP[x y]', '[[[1;2];(0,2)];[[9;2];(0,2)]]\n')])
plant("s332-list-index-start", "C16",
      "searching a list from a start beyond its first occurrence finds nothing after 3 items",
      "@* on lists with occurrences more than four apart",
      [("ptypes.py", "            return self._value.index(searchItem, startIndex)\n        except ValueError:\n            raise ValueError(f\"{searchItem} is not in List", "            return self._value.index(searchItem, startIndex, max(startIndex, 1) + 5)\n        except ValueError:\n            raise ValueError(f\"{searchItem} is not in List")],
      [('RP([1;2;3;4;5;6;1]@*1)', '[0;6]\n'),
       ('RP([1;2;3;1]@*1)', '[0;3]\n')])
plant("s333-range-eq-lower", "C16",
      "ranges that are both empty count as equal",
      "comparing two different empty ranges",
      [("ptypes.py", "        return (type(self) is type(rhs)\n                and self._lower == rhs._lower\n                and self._upper == rhs._upper)", "        return (type(self) is type(rhs)\n                and (self._lower == rhs._lower\n                     and self._upper == rhs._upper\n                     or self.isEmpty() and rhs.isEmpty()))")],
      [('RP((2,2)=(3,3))', '0\n'),
       ('RP((2,2)==(3,3))', '0\n'),
       ('RP([2,2]==[3,1])', '0\n'),
       ('RP((2,2)==(2,2))', '1\n')])
plant("s335-history-order", "C24",
      "$___ is only moved on if $_ changes",
      "two equal values in a row, then a look at $___",
      [("execution.py", "            if self.isDefined(\"$__\"):\n                self.assign", "            if self.isDefined(\"$__\") and self.getRval(Lval(\"$_\")) != newValue:\n                self.assign")],
      [('1;2;3;3;RP $___', '2\n'),
       ('1;2;3;4;RP $___', '2\n')])
plant("s336-regex-vars-group9", "C24",
      "a match with ten or more groups sets $9 to the last group",
      "a pattern with more than nine groups",
      [("execution.py", "            if i < len(groups):\n                self.assign(matchVar, groups[i])", "            if i < len(groups):\n                self.assign(matchVar, groups[i if i < 9 else -1])")],
      [('"abcdefghijk"~`(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)`RP[$8 $9]', '["h";"i"]\n'),
       ('"abcdefghi"~`(.)(.)(.)(.)(.)(.)(.)(.)(.)`RP[$8 $9]', '["h";"i"]\n')])
plant("s337-fold-chain-two", "C11",
      "folding a comparison over a list in which the first two items are equal compares only those",
      "$ with a comparison over three or more items of which the first two are equal",
      [("execution.py", "                        chainExpr = [ops.chain, iterable[0]]\n                        for val in iterable[1:]:\n                            chainExpr.extend((normalOp, val))\n                        foldValue", "                        chainExpr = [ops.chain, iterable[0]]\n                        for val in iterable[1:]:\n                            chainExpr.extend((normalOp, val))\n                        if len(iterable) > 4 and iterable[0] == iterable[1]:\n                            del chainExpr[-2:]\n                        foldValue")],
      [('RP($=[1;1;1;1;2])', '0\n'),
       ('RP($=[1;1;1;2])', '0\n'),
       ('RP($=[1;2])', '0\n')])
plant("s338-scan-right-last", "C11",
      "a scan with a right-associative operator loses the first result for long lists",
      "\\$ with E and more than four items",
      [("execution.py", "                    scanResults.reverse()", "                    scanResults = scanResults[::-1] if len(iterable) < 5 else scanResults[:-1][::-1] + [scanResults[0]]")],
      [('RP(\\$E[2;1;2;1;1])', '[2;1;2;1;1]\n'),
       ('RP(\\$E[2;1;3;1])', '[2;1;3;1]\n')])
plant("s341-interpolate-double", "C43",
      "an escaped string that starts with an interpolated name keeps only one of two adjacent names",
      "an escaped string with two interpolations next to each other after a third",
      [("parsing.py", "            while litOrInterpolation:\n                interpolation = litOrInterpolation.pop(0)", "            while litOrInterpolation:\n                interpolation = litOrInterpolation.pop(0)\n                if len(expression) > 4 and expression[-1] == expression[-3] == r'\\\"\\\"':\n                    interpolation = expression[-2][1]")],
      [('x:1 y:2 z:3 RP \\"\\x\\y\\z\\"', '123\n'),
       ('x:1 y:2 RP \\"\\x\\y\\"', '12\n')])
plant("s343-fold-map-op", "C03",
      "a folded operator with map and assign is parsed as assign on the list",
      "$+*: on a variable",
      [("parsing.py", "            op = op.copy()\n            op.assign = True\n            op.precedence = assignOp.precedence\n        subOperand", "            op = op.copy()\n            op.assign = True\n            if op.map and op.arity == 1 and token in operators.opsByArity[2]:\n                op.map = False\n            op.precedence = assignOp.precedence\n        subOperand")],
      [('x:[[1;2];[3;4]] $+*:x RP x', '[3;7]\n'),
       ('x:[[1;2];[3;4]] -*:x RP x', ''),
       ('x:[[1;2];[3;4]] $+:x RP x', '[4;6]\n')])
plant("s345-call-nested-return", "C22",
      "a function whose result is a variable of its own called with more than six arguments returns nil",
      "a call with more than six arguments that returns g or f",
      [("execution.py", "                returnVal = self.getRval(returnExpr)\n            else:\n                returnVal = nil\n        finally", "                returnVal = self.getRval(returnExpr)\n                if len(argList) > 6 and isinstance(returnExpr, tokens.Name) and isinstance(returnVal, List) and len(returnVal) == len(argList):\n                    returnVal = List(returnVal[slice(0, 6)])\n            else:\n                returnVal = nil\n        finally")],
      [('RP({g}1 2 3 4 5 6 7)', '[1;2;3;4;5;6;7]\n'),
       ('RP({g}1 2 3 4 5 6)', '[1;2;3;4;5;6]\n'),
       ('RP({[g]}1 2 3 4 5 6 7)', '[[1;2;3;4;5;6;7]]\n')])
plant("s346-till-body-break", "C23",
      "a T loop does not see a condition that becomes true and false again within one pass",
      "T whose body runs more than twenty times",
      [("execution.py", "            for statement in code:\n                self.executeStatement(statement)\n            condVal = self.getRval(cond)\n\n    def WHILE", "            for statement in code:\n                self.executeStatement(statement)\n            condVal = self.getRval(cond)\n            if isinstance(condVal, List) and len(condVal) == 1:\n                condVal = condVal[0]\n\n    def WHILE")],
      [('x:[] T x{x AE:0 U i I i>3{x:[1]}}RP[i x]', '[1;[0]]\n'),
       ('T i>3{U i}RP i', '4\n')])
plant("s347-loopregex-list", "C23",
      "LR leaves the last match of an empty match at the end out",
      "LR with a pattern that can match the empty text at the end",
      [("execution.py", "            for matchObj in matches:\n                self.assignRegexVars(matchObj)\n                # Then", "            for matchObj in matches:\n                if matchObj.start() == len(str(string)) > 3 and not matchObj.group():\n                    break\n                self.assignRegexVars(matchObj)\n                # Then")],
      [('LR`a*`"abab"{P RP $0}', '"a"\n""\n"a"\n""\n""\n'),
       ('LR`a*`"aba"{P RP $0}', '"a"\n""\n"a"\n""\n')])
plant("s350-pattern-concat-flags", "C31",
      "patterns joined with + keep only the flags of the right one if the left one is longer",
      "concatenation of a flagged and an unflagged pattern",
      [("ptypes.py", "        return Pattern(f\"{self._raw}{other._raw}\",\n                       self._flags | other._flags)", "        return Pattern(f\"{self._raw}{other._raw}\",\n                       self._flags | other._flags if len(self._raw) < 6 else other._flags)")],
      [('RP(-`abcdef`.`g`)', '-`abcdefg`\n'),
       ('RP(-`abc`.`g`)', '-`abcg`\n')])
plant("s354-char-backslash", "C43",
      "the character literal for a backslash before another quote is empty",
      "'\\ followed by a character literal",
      [("ptypes.py", "            return Scalar(tokenString[1])", "            return Scalar(tokenString[1:].replace(\"\\t\", \" \"))")],
      [("RP A'\t", '9\n'),
       ("RP A'b", '98\n')])
plant("s355-pattern-backtick", "C43",
      "an escaped backtick in a pattern is only unescaped the first time",
      "a pattern with two escaped backticks",
      [("ptypes.py", "            rawPattern = tokenString[1:-1].replace(\"\\\\`\", \"`\")", "            rawPattern = tokenString[1:-1].replace(\"\\\\`\", \"`\", 1)")],
      [('RP"a``"~`\\`\\``', '"``"\n'),
       ('P#ST`\\`\\``', '2\n2\n'),
       ('P ST`\\``', '`\n`\n')])
plant("s356-escaped-double-odd", "C43",
      "three doubled backslashes in an escaped string become two",
      "an escaped string with three or more doubled backslashes in a row",
      [("ptypes.py", "            return Scalar(tokenString[2:-2].replace(r\"\\\\\", \"\\\\\"))", "            return Scalar(tokenString[2:-2].replace(\"\\\\\" * 6, \"\\\\\" * 4).replace(r\"\\\\\", \"\\\\\"))")],
      [('P\\"\\\\\\\\\\\\\\"', '\\\\\\\n\\\\\\\n'),
       ('P\\"\\\\\\\\\\"', '\\\\\n\\\\\n')])
plant("s357-number-zeros", "C43",
      "a numeral with a decimal point loses trailing zeros past the third place",
      "a numeral with more than three decimals that end in 0",
      [("ptypes.py", "            return Scalar(tokenString)\n", "            return Scalar(tokenString.rstrip(\"0\") if len(tokenString) > 4 and tokenString[1] == \".\" else tokenString)\n")],
      [('P 1.250', '1.250\n1.250\n'),
       ('P 1.25', '1.25\n1.25\n'),
       ('P 0.10', '0.10\n0.10\n')])
plant("s360-recurse-spread", "C22",
      "RE with a list of two items passes them as two arguments",
      "RE with a list of exactly two items",
      [("execution.py", "        return self.functionCall(self.localScope.function,\n                                 [rhs])", "        return self.functionCall(self.localScope.function,\n                                 list(rhs) if isinstance(rhs, List) and len(rhs) == 2 else [rhs])")],
      [('i:0 ({U i i<2?RE a [a b g]} [7;8])', '[[7;8];();[[7;8]]]\n'),
       ('i:0 ({U i i<2?RE a [a b g]} [7;8;9])', '[[7;8;9];();[[7;8;9]]]\n')])
plant("s361-randrange-nil", "C32",
      "a random number from nil to n is never 0 for large n",
      "() RR n with n above 3",
      [("execution.py", "            if lhs is nil:\n                lhs = 0\n            else:\n                lhs = int(lhs)\n            rhs = int(rhs)\n            if lhs >= rhs:\n                self.err.warn(\"No numbers to choose from in RANDRANGE:\"", "            if lhs is nil:\n                lhs = 1 if int(rhs) > 3 else 0\n            else:\n                lhs = int(lhs)\n            rhs = int(rhs)\n            if lhs >= rhs:\n                self.err.warn(\"No numbers to choose from in RANDRANGE:\"")],
      py=r"""
import subprocess
o = subprocess.run([sys.executable, "pip.py", "-e", 'L 300{x.:()RR 4}"0"N x'], capture_output=True, text=True).stdout.strip()
p = subprocess.run([sys.executable, "pip.py", "-e", 'L 300{x.:()RR 3}"0"N x'], capture_output=True, text=True).stdout.strip()
sys.exit(0 if int(o) > 0 and int(p) > 0 else 1)
""")
plant("s362-lambda-third", "C12",
      "a ternary operator whose third operand alone is a function with statements loses those",
      "\\? or another ternary with a function of two statements as last operand",
      [("execution.py", "                    statements = args[blockArg].getStatements()\n                    args[blockArg] =", "                    statements = args[blockArg].getStatements()\n                    if blockArg == 2:\n                        statements = statements[-1:]\n                    args[blockArg] =")],
      [('z:(0\\?4 {x:a;y:3;x.y}) RP(z 5)', '53\n'),
       ('z:(0\\?4 {x:a;x.3}) RP(z 5)', '53\n')])
plant("s363-longer-right", "C10",
      "adding a list to one longer by more than two items drops the rest",
      "an item-wise operator on lists whose lengths differ by three or more, the right one longer",
      [("execution.py", "                            result.extend(args[1][lengths[0]:])", "                            result.extend(args[1][slice(lengths[0], min(lengths[1], lengths[0] + 3))])")],
      [('RP([1]+[1;2;3;4;5])', '[2;2;3;4;5]\n'),
       ('RP([1]+[1;2;3;4])', '[2;2;3;4]\n')])
plant("s364-string-slice-far", "C17",
      "a slice that starts more than one length before a string begins one length too late",
      "@ with a range whose lower end is below minus twice the length of a string",
      [("ptypes.py", "            while start < 0:\n                repString = self._value + repString\n                start += length\n                stop += length", "            if start < 0:\n                copies = -(-start // length)\n                repString = self._value * min(copies, 3) + repString\n                start += min(copies, 3) * length\n                stop += min(copies, 3) * length")],
      [('RP("ab"@(-9,2))', '"babababab"\n'),
       ('RP("ab"@(-7,2))', '"bababab"\n')])
plant("s366-history-in-call", "C24",
      "the history of a function that calls another one four deep is lost",
      "$_ after calls nested four deep",
      [("execution.py", "        if self.isDefined(\"$_\"):\n            if", "        if self.isDefined(\"$_\") and self.callDepth < 5:\n            if")],
      [('f:{a?(f a-1) 0 5;6;RP[$_ $__]} (f 5)', '[6;5]\n'),
       ('f:{5;6;P RP[$_ $__ a] a?(f a-1) 0} (f 5)', '[6;5;5]\n[6;5;4]\n[6;5;3]\n[6;5;2]\n[6;5;1]\n[6;5;0]\n0\n'),
       ('f:{5;6;P RP[$_ $__ a] a?(f a-1) 0} (f 2)', '[6;5;2]\n[6;5;1]\n[6;5;0]\n0\n')])
plant("s367-range-iter-skip", "C18",
      "going through a range skips the number after 41",
      "a range of which 41 is not the last number, item by item",
      [("ptypes.py", "        while isInfinite or i < self._upper:\n            yield Scalar(i)\n            i += 1", "        while isInfinite or i < self._upper:\n            yield Scalar(i)\n            i += 1 if i != 41 or isInfinite else 2")],
      [('RP(_M40,44)', '[40;41;42;43]\n'),
       ('RP(_M30,34)', '[30;31;32;33]\n')])
plant("s369-range-slice-copy", "C18",
      "a slice of an infinite range with a lower end of nil starts at its lower end's double",
      "slicing (n,()) twice",
      [("ptypes.py", "                    newUpper = lower + stop", "                    newUpper = lower + stop if start is None or lower < 3 else lower + stop - start + start // 2")],
      [('RP((5,())@(3,9))', '(8,14)\n'),
       ('RP((5,())@(1,9))', '(6,14)\n'),
       ('RP((2,())@(3,9))', '(5,11)\n')])
