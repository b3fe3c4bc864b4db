"""The properties: id -> title, statement, quantifier, anchors.

tools/gen.py turns this into properties.jsonl and MANIFEST.json.
"""
CAT = {}


def prop(id, title, statement, over, text, why, files, *mech):
    assert len(title) <= 80, title
    CAT[id] = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[
            dict(name=m.split("@")[0].strip(), where=m.split("@")[1].strip())
            for m in mech]))


NOTEST = ("The tests only exercise the data types directly; no test scans, "
          "parses or runs a program. ")

prop("C01", "Scanning splits every source text into the language's tokens",
     "Every source text has exactly one tokenization: the longest documented "
     "token at each position (names of one lower-case or up to two upper-case "
     "letters, numbers, string/pattern/character literals with their escapes, "
     "longest operator), with white space and comments dropped. Unterminated "
     "literals are reported as incomplete or closed as documented, and no text "
     "is silently altered or lost.",
     "inputs", "all source texts (checked: all texts up to 4-5 characters over "
     "the character classes that the scanner distinguishes)",
     NOTEST + "Whether two tokens run together depends on every neighbour, so "
     "the claim is about all texts.",
     "scanning.py tokens.py operators.py",
     "tokenizer regexes and operator table @ scanning.py: scan/tokenize",
     "longest-match operator list @ operators.py")
prop("C02", "Layout does not change a program's meaning",
     "Adding, removing or changing white space and comments between tokens "
     "(where a separator is not needed to keep the tokens apart) never changes "
     "the program that is parsed or what it prints.",
     "programs", "all programs and all layouts (checked: all pairs and triples "
     "of token classes with every separator, and all layouts of whole programs)",
     NOTEST + "Layout neutrality relates all layouts of all programs.",
     "scanning.py parsing.py",
     "white space and comment skipping @ scanning.py")
prop("C03", "Expressions parse by precedence, associativity and arity",
     "Every expression has the tree that the documented precedence, arity and "
     "associativity of its operators dictate: unary before lower binary "
     "levels, left/right association, comparison chains, the lowest-level "
     "ternaries, meta-operators binding to the operator next to them, "
     "compute-and-assign forms, and parentheses/brackets/braces as function "
     "calls, lists and functions.",
     "programs", "all expressions (checked: all combinations of up to three "
     "operators with one of every precedence level, every operator with every "
     "meta-operator, all uses of parentheses, all token sequences over small "
     "alphabets)",
     NOTEST + "Operator interaction is quadratic or cubic in about 200 "
     "operators.",
     "parsing.py operators.py",
     "operator-precedence parser @ parsing.py: parseExpr",
     "precedence table @ operators.py: precedenceTable")
prop("C04", "Incomplete, malformed and complete programs are told apart",
     "A text that could still be continued to a valid program is reported as "
     "incomplete, one that cannot be is reported as bad syntax, and everything "
     "else is accepted: in particular no beginning of a valid program is "
     "reported as bad, and no malformed program is executed.",
     "inputs", "all token sequences (checked: all of length <= 4-5 over several "
     "alphabets, all edits of whole programs, every operator in 64 contexts)",
     NOTEST + "It quantifies over all beginnings of all programs.",
     "parsing.py scanning.py errors.py",
     "IncompleteSyntax/BadSyntax raised while parsing @ parsing.py")
prop("C05", "A function's printed form is source for the same function",
     "The printed representation of any function, written in a program or "
     "built by applying operators to functions and values, is source text "
     "which evaluates to a function with the same results, output, side "
     "effects and printed representation.",
     "programs", "all functions (checked: every operator with operands of "
     "every precedence level, every command shape, every literal, functions "
     "built from every value)",
     NOTEST + "Losing a needed parenthesis or quote shows only for particular "
     "nestings.",
     "parsing.py ptypes.py",
     "unparse @ parsing.py: unparse/unparseExpr",
     "Block representation @ ptypes.py: Block.__repr__")
prop("C06", "The printed representation of data evaluates to equal data",
     "For every number, string, list, range, pattern written as a literal, "
     "and nil, at any nesting depth, evaluating its printed representation "
     "gives a value equal to the original, under every list output format.",
     "inputs", "all data values (checked: all strings of <= 4 characters over "
     "17 special characters, all nested lists over 17 atoms, all small ranges "
     "and patterns with flags)",
     NOTEST + "Escaping errors depend on particular character combinations.",
     "ptypes.py scanning.py", "repr of each type @ ptypes.py: __repr__",
     "string literal escapes @ tokens.py")
prop("C07", "Numeric value, integer value and truth of every Scalar and value",
     "A string stands for the number that is its longest numeric prefix (0 if "
     "there is none), its integer value truncates at the first non-digit, and "
     "it is false exactly if it is empty or some form of zero; lists, ranges, "
     "patterns and functions are false exactly if empty and nil is false. Every "
     "operator, condition and loop uses the same interpretation.",
     "inputs", "all strings (checked: all of <= 4 characters over "
     "015-.e+ newline a and longer numerals) and all kinds of values",
     "Tests convert a few ranges; prefixes, signs, exponents and zeros "
     "combine.",
     "ptypes.py execution.py", "Scalar conversions @ ptypes.py: Scalar.toNumber",
     "truth @ ptypes.py: __bool__")
prop("C08", "Integer arithmetic and bitwise operations are exact",
     "Arithmetic and bitwise operators on integers of any size give exact "
     "results and satisfy the integer laws (quotient and remainder recompose, "
     "bitwise identities, distribution), and on fractions give the usual "
     "floating-point results; operations without a result (such as division by "
     "zero) give nil, not an error.",
     "inputs", "all operand pairs (checked: all pairs of a pool of 25 integers "
     "up to 10^30, all |n| <= 12, fractions and non-numeric strings, all "
     "two-operator combinations, 60 integers of up to 9000 digits)",
     "No test evaluates an operator; precision loss needs particular sizes "
     "and signs.",
     "execution.py ptypes.py", "arithmetic operators @ execution.py: ADD..XOR",
     "numeric Scalars @ ptypes.py: Scalar")
prop("C09", "Rounding gives the right multiple in the right direction",
     "Rounding down, up, to nearest and toward zero, to integers or to a given "
     "multiple, give the adjacent multiple in the stated direction (ties to "
     "nearest as documented) for operands of either sign, exactly for integers "
     "of any size.",
     "inputs", "all numbers and multiples (checked: all |x| <= 40 and large "
     "integers x 32 multiples, all quarters, a pool of fractions)",
     "No test rounds anything; sign and tie cases and big integers interact.",
     "execution.py", "rounding operators @ execution.py: CEIL FLOOR "
     "ROUNDNEAREST ROUNDZERO")
prop("C10", "Item-wise operators apply item by item to lists and ranges",
     "An operator that works item by item, given a list (or range, if the "
     "operator supports it), gives the list of its results on the items, "
     "recursively for nested lists; two lists are paired by position with the "
     "unpaired rest of the longer one kept, and a scalar operand is paired with "
     "every item. The operands are not modified.",
     "inputs", "all operators and shapes (checked: every item-wise operator x "
     "all pairs of 29 shapes, all lists of <= 3 items, compositions of two)",
     NOTEST + "Ragged and nested shapes multiply with about 90 operators.",
     "execution.py operators.py", "LIST_EACH/RANGE_EACH handling @ "
     "execution.py: evaluate", "operator flags @ operators.py")
prop("C11", "Fold, scan and map meta-operators mean repeated application",
     "Folding a list with an operator gives the result of writing the operator "
     "between its items (with the operator's associativity, or its chain for "
     "comparisons), a scan gives all partial folds, and mapping applies a unary "
     "operator to every item; an empty list folds to the operator's identity.",
     "programs", "all operators and iterables (checked: every operator x 26 "
     "iterables, all lists of <= 3 items, pairs of meta-operators, and "
     "functions)",
     NOTEST + "Associativity, defaults and element types interact with every "
     "operator.",
     "execution.py operators.py", "fold/scan/map @ execution.py: evaluate, "
     "FOLDMETA SCANMETA MAPMETA", "fold defaults @ operators.py")
prop("C12", "Operators on functions build functions working on their results",
     "Applying a function-building operator to functions (and values) gives a "
     "function that, called with any arguments, runs the operands' statements "
     "in order and applies the operator to their results; values and results "
     "computed when it was built do not change later.",
     "programs", "all operators, operand forms and arguments (checked: every "
     "function-building operator x 8 operand forms x 7 argument lists, two "
     "levels of building, comparison chains, functions of up to three statements in "
     "every operand of every operator)",
     NOTEST + "Building and calling are separated, so state can leak between "
     "them.",
     "execution.py operators.py", "IN_LAMBDA handling @ execution.py: evaluate",
     "flags @ operators.py")
prop("C13", "Compute-and-assign stores and yields the computed value",
     "For every operator, target op: value computes the operator on the old "
     "value of the target and the value, stores it in the target and yields it, "
     "evaluating target and value exactly once, for variables, items, slices "
     "and lists of targets; other variables are not affected.",
     "programs", "all operators, targets and values (checked: every operator x "
     "8 values x 6 operands on plain and indexed targets, 16 target kinds, "
     "side-effecting operands)",
     NOTEST + "Double evaluation shows only with side effects.",
     "execution.py parsing.py", "assign flag of operators @ execution.py: "
     "evaluate, assign")
prop("C14", "Operands are evaluated left to right, and only if needed",
     "Every operand is evaluated exactly once and from left to right; and, or, "
     "conditionals and comparison chains evaluate only the operands that decide "
     "the result and yield the deciding operand, while their eager variants "
     "evaluate all.",
     "programs", "all expressions with side effects (checked: all and/or/not "
     "shapes of <= 4 operands x truth values, conditionals, chains of <= 4, "
     "every operator and bracket form with traced operands, 650 values of "
     "every kind as conditions in every form)",
     NOTEST + "Evaluation order is only visible through side effects.",
     "execution.py", "AND OR IFTE CHAIN @ execution.py", "evaluate @ execution.py")
prop("C15", "Comparisons are consistent orders and equalities",
     "Numeric, string, length and exact comparisons of any two values agree "
     "with one order each: complements and mirror images agree, equality is "
     "symmetric and reflexive, exactly one of less, equal and greater holds for "
     "scalars, orders are transitive, lists compare item by item and ranges by "
     "their bounds, and a chain holds exactly if all its links do.",
     "inputs", "all values (checked: 17 comparisons on all pairs of 51 values, "
     "all pairs of short numerals and lists, all triples, all chains of two and "
     "three links)",
     NOTEST + "The laws relate all pairs and triples of values of all types.",
     "execution.py ptypes.py", "comparison operators @ execution.py: NUMEQUAL "
     ".. STRLESSEQ", "CHAIN @ execution.py")
prop("C16", "Equality, membership, search, counting and removal agree",
     "Exact equality holds exactly between values of the same type and "
     "contents, is an equivalence, and is what lists use; membership counts, "
     "non-membership, first position, all positions, removal and "
     "deduplication agree with it and with each other on lists, strings, "
     "ranges and patterns.",
     "inputs", "all values (checked: all pairs of 30 values alone and in "
     "lists, all lists of <= 3 of 6 items and of items that look alike, all ab "
     "strings of <= 5, strings that are parts of others, ranges with every "
     "kind of bound)",
     NOTEST + "Equality is a relation between all pairs of values.",
     "ptypes.py execution.py", "__eq__ of each type @ ptypes.py",
     "IN FIND FINDALL REMOVE UNIQUE @ execution.py")
prop("C17", "Indexing wraps around and slices repeat cyclically in every form",
     "Item k of a sequence of length n is its item k mod n in every way to "
     "write an index (operator, call-like form, item of an expression), slices "
     "continue cyclically, infinite ranges are indexed directly, index lists "
     "give lists, patterns give matches, and unsupported indices give nil.",
     "inputs", "all sequences and indices (checked: all indices up to 12 and "
     "slices with bounds up to 6 on 23 values, in 11 forms, against the modulo "
     "law; all index paths of 2-3 steps)",
     "Tests index a few ranges; negative, wrapping, open and nested slices "
     "combine with the value kinds and ways to write them.",
     "execution.py ptypes.py", "AT LEFTOF RIGHTOF PREFIX SUFFIX @ execution.py",
     "__getitem__ @ ptypes.py: Scalar List Range")
prop("C18", "A Range behaves like the List of its numbers, lazily",
     "Wherever a list is accepted, a finite range gives the same result as the "
     "list of its numbers (except where the language defines arithmetic, slice "
     "or display of ranges), operators that need only part of an infinite range "
     "end, and adding to a range moves both bounds.",
     "inputs", "all ranges and operators (checked: 10 finite ranges x all "
     "sequence operators, folds and commands against the list; 4 infinite "
     "ranges x 48 expressions; all pairs of 14 bounds; ranges of 3 at 580 "
     "places, of all lengths < 70; all small slices of small ranges)",
     "Tests exercise Range methods on some ranges but no operator.",
     "ptypes.py execution.py", "Range @ ptypes.py: Range",
     "RANGE @ execution.py")
prop("C19", "Values are never shared between variables, items and arguments",
     "Changing a variable, item, argument or loop variable never changes "
     "another one, a constant of the program, an operand, or a result "
     "computed earlier, whatever sequence of assignments, calls and "
     "operations they went through.",
     "histories", "all statement sequences (checked: all sequences of <= 3 of "
     "22 statements, <= 4 over the empty list, every operator's operands "
     "against its result, repeated constants)",
     NOTEST + "Sharing shows only in a later change along a particular path.",
     "execution.py ptypes.py", "copies on assignment and fetch @ execution.py: "
     "assign getRval functionCall")
prop("C20", "Assignment stores exactly in its target",
     "Assigning to a variable, item, nested item, slice or list of targets "
     "changes exactly the designated places to the new value, keeps everything "
     "else and yields the target; unsupported targets and indices change "
     "nothing and do not end the program.",
     "histories", "all targets and values (checked: 12 current x 17 indices x 9 "
     "new values, two- and three-step targets, 46 target forms, 25 destructuring shapes, "
     "all swaps, 17 nested target shapes x 288 value shapes, items of all "
     "kinds and lengths <= 6 at depths <= 4, targets without values, all "
     "sequences of <= 4 of 14 assignments)",
     NOTEST + "Target kinds multiply with value kinds and prior history.",
     "execution.py ptypes.py", "assign and Lval @ execution.py: assign; "
     "ptypes.py: Lval", "__setitem__ @ ptypes.py")
prop("C21", "Push, pop and pick at both ends keep the sequence and its order",
     "Any sequence of push, push-back, pop, dequeue and pick operations "
     "behaves like one on a double-ended queue, yields the removed item (nil "
     "if there is none), and stores the changed sequence in its target only.",
     "histories", "all operation sequences (checked: all of <= 7 against a "
     "deque, all of <= 3 of 9 steps on 13 initial values, each operation on "
     "all pairs of values)",
     NOTEST + "It quantifies over operation histories.",
     "execution.py", "PUSH PUSHBACK POP DEQUEUE PICK @ execution.py")
prop("C22", "Functions get their arguments, keep their locals, and return",
     "A call binds the given arguments (missing ones nil) and its own argument "
     "list, keeps locals apart from the caller's and other calls' (also in "
     "recursion), shares globals, and yields the value of the last expression; "
     "evaluated code runs in the evaluating scope; a failing call does not "
     "undo what ran before.",
     "programs", "all programs (checked: 32 bodies x 16 argument lists, all "
     "sequences of <= 3 of 16 scope actions and of 11 uses of locals, "
     "recursion depths <= 7, 22 code strings in 6 contexts, values of all "
     "kinds called with all lists of <= 3 arguments, repeated calls with "
     "arguments of all kinds)",
     NOTEST + "Scope errors appear only for particular call sequences.",
     "execution.py", "calls and scopes @ execution.py: functionCall openScope "
     "getRval varTable", "EVAL RECURSE @ execution.py")
prop("C23", "Control flow runs the right bodies the right number of times",
     "Conditionals run exactly the first branch whose condition holds; while, "
     "till, loop, for and regex loops run their body exactly as often, with "
     "the loop variables, as their documentation says, also when the body "
     "changes the subject; else parts belong to the nearest open conditional.",
     "programs", "all programs (checked: 29 commands x 34 values, 59 "
     "spellings of conditions as literals and values in 27 commands, all kinds "
     "of regex loop headers, all nestings of 8 commands to depth 2, all if/else sequences of <= 5 parts, bodies "
     "that change the subject)",
     NOTEST + "Nesting and interference multiply.",
     "execution.py parsing.py", "commands @ execution.py: IF WHILE TILL LOOP "
     "FOR LOOPREGEX", "command parsing @ parsing.py: parseStatement")
prop("C24", "History and match variables hold the most recent values",
     "The history variables hold the values of the latest expression "
     "statements in order, and the match variables hold the groups, position "
     "and surroundings of the latest successful match, across every matching "
     "operator, loop, callback and function; groups that did not take part "
     "give nil or empty as documented.",
     "histories", "all matches and statement sequences (checked: all "
     "sequences of <= 3 of 16 statements and of 13 matches, 19 matching "
     "expressions x 14 patterns x 6 strings, all group counts <= 12, the history "
     "inside of functions to 40 calls deep)",
     NOTEST + "The state depends on the history of matches.",
     "execution.py", "match variables @ execution.py: assignRegexVars",
     "history variables @ execution.py: executeStatement")
prop("C25", "Predefined variables have their documented values until assigned",
     "Every predefined variable, meta-variable and match variable has its "
     "documented initial value in every context until it is assigned; unset "
     "names are nil; the input variables read standard input line by line, "
     "once, and only when used.",
     "programs", "all variables and uses (checked: 37 documented values in 10 "
     "contexts, all 66 names in 16 uses, wiping inside functions, all orders of "
     "reading input)",
     NOTEST + "Laziness and shadowing depend on the context of each use.",
     "execution.py", "initial values @ execution.py: ProgramState.__init__",
     "variable lookup @ execution.py: getRval assignVar varTable")
prop("C26", "Mapping and filtering call the function once per item, in order",
     "Each mapping and filtering operator calls its function exactly once per "
     "item (pair, character, ...) in order with the documented arguments, "
     "yields one result (or keeps the item) per call, and gives nil for an "
     "operand that is no function or not iterable.",
     "inputs", "all functions and iterables (checked: 14 operators x 25 "
     "functions x 20 iterables, non-function operands, functions that have "
     "effects, nested maps)",
     NOTEST + "Effects inside the mapped function make the order observable.",
     "execution.py", "map and filter operators @ execution.py: MAP MAPENUMERATE "
     "MAPFLATTEN MAPJOIN MAPMAP MAPPAIRS MAPSUM MAPUNPACK FILTER FILTERNOT "
     "FILTERENUMERATE FILTERINDEXES FILTERJOIN FILTERUNPACK")
prop("C27", "Sorting gives a stable, ordered permutation",
     "Sorting numerically, by string or by key gives a permutation of the "
     "operand in which keys do not decrease (do not increase, for the "
     "descending operators) and equal keys keep their order; maximum and "
     "minimum agree with it; nothing else changes.",
     "inputs", "all sequences (checked: all lists of 5 numbers, all key "
     "patterns of 4 items, all lists of <= 3 of 9 mixed items, 20 keys)",
     NOTEST + "Stability and mixed types need many shapes of input.",
     "execution.py", "sorting operators @ execution.py: SORTNUM SORTSTRING "
     "SORTKEYED and descending variants MAX MIN")
prop("C28", "Operators that rearrange lists keep their items and order",
     "Reversing, chopping, grouping, weaving, zipping, transposing, flattening, "
     "repeating, rotating, uniquifying, inserting and combining keep exactly "
     "the documented items in the documented order, for strings, lists and "
     "ranges of every shape, and never end the program on other values.",
     "inputs", "all shapes and arguments (checked: 30 laws on all short lists "
     "and on lists of items that look alike, every structural operator on 24 shapes x 23 arguments and on lists of every length up to "
     "65)",
     NOTEST + "Ragged, empty and nested shapes multiply with arguments.",
     "execution.py", "list operators @ execution.py: CHOP GROUP UNWEAVE WEAVE "
     "ZIP TRANSPOSE FLATTEN ROTATE UNIQUE REVERSE CARTESIANPRODUCT "
     "COMBINATIONS PERMUTATIONS REPLACEAT")
prop("C29", "String operators work character by character on any text",
     "Case, trimming, stripping, splitting, joining, wrapping, removing, "
     "finding and converting characters give what they are documented to give "
     "on every text, including empty, repeated and non-ASCII characters, and "
     "map over the items of lists.",
     "inputs", "all texts (checked: 30 laws on all texts of <= 4 of 8 "
     "characters, texts of special characters, every string operator on 16 texts x 24 arguments, every cased character "
     "of the basic plane)",
     NOTEST + "Boundary texts and argument types multiply.",
     "execution.py", "string operators @ execution.py: SPLIT JOIN STRIP TRIM "
     "LOWERCASE UPPERCASE SWAPCASE ASC CHR TRANSLITERATE REPLACE PREFIX SUFFIX")
prop("C30", "Conversions between numbers, numerals and digits are inverse",
     "For every integer and every base, converting to a numeral or digit list "
     "and back gives the number; digit lists denote the weighted sum of their "
     "digits; what is not a numeral in the base, or no base, gives nil.",
     "inputs", "all integers and bases (checked: all integers of a range x "
     "bases 2..36, all digit lists of <= 4 digits, all kinds of operands)",
     NOTEST + "Inverse laws quantify over all integers and bases.",
     "execution.py", "base conversion @ execution.py: TOBASE FROMBASE "
     "TODIGITS FROMDIGITS")
prop("C31", "Patterns match the language their construction describes",
     "Concatenation, alternation, repetition, grouping and modifiers of "
     "patterns and strings denote the corresponding sets of strings (keeping "
     "flags and capturing groups), a literal pattern matches exactly its text, "
     "and the matching operators find all matches, in order, as documented.",
     "inputs", "all patterns and texts (checked: languages over 31 strings of "
     "all compositions of 13 patterns, all short literal texts, every matching "
     "operator on all combinations of patterns, texts and replacements)",
     NOTEST + "Composition is wrong only for particular pairs of patterns.",
     "execution.py ptypes.py", "Pattern @ ptypes.py",
     "pattern operators @ execution.py: KLEENESTAR KLEENEPLUS REGEX "
     "FINDALL REPLACE SPLIT regex modifiers")
prop("C32", "Random operators give each outcome with its exact probability",
     "Random choice, random range and shuffle give exactly the documented "
     "outcomes, each with equal probability and independently for each use; "
     "every use of r is one fresh number in [0, 1); seeding makes what follows "
     "reproducible and a function of the whole seed.",
     "nondeterminism", "all outcomes of the random number generator (checked: "
     "exact distributions by enumerating all its answers, on all kinds of "
     "values, in folds, maps and chains, and all sequences of <= 3 of 10 "
     "statements)",
     NOTEST + "A distribution is a statement about all outcomes.",
     "execution.py", "random operators @ execution.py: RANDCHOICE SHUFFLE "
     "RANDRANGE RANDRANGETO", "r @ execution.py: getRval assign")
prop("C33", "Output follows the chosen list format for every value",
     "Everything a program prints (with output operators and its final value) "
     "appears in order and in the form the chosen list format gives for that "
     "value: concatenated, on lines, joined by spaces, or as a representation, "
     "at every nesting; the format never changes what is computed other than "
     "through conversion to text.",
     "inputs", "all sequences of outputs, values and formats (checked: all "
     "sequences of <= 3 output statements x 7 formats, every text conversion "
     "of nested lists)",
     NOTEST + "No test prints anything.",
     "execution.py ptypes.py", "output operators @ execution.py: PRINT OUTPUT "
     "REPRPRINT executeProgram", "List.__str__ outFormat @ ptypes.py")
prop("C34", "The command line runs the given program with the given arguments",
     "A program behaves the same from every source (-e, -f, -i, a file, a "
     "parameter); arguments arrive unchanged and in order, from the command "
     "line, from a quoted string, from lines of standard input (-r) or evaluated "
     "(-x); every flag does what its help text says; the exit status is 0, 1 "
     "(fatal error) or 2 (not a command line).",
     "inputs", "all command lines (checked: all sequences of <= 2 flags x 13 "
     "programs x 4 sources, all short programs from 7 sources, all argument "
     "strings of <= 6 of 5 characters, all pairs of 33 evaluated arguments)",
     NOTEST + "Flags, sources and arguments interact combinatorially.",
     "pip.py", "pip() @ pip.py: argument parsing, program sources, -r -x -v -d",
     "main() run() @ pip.py")
prop("C35", "Warnings inform and change nothing",
     "With warnings shown, a program prints and does exactly what it does "
     "without them; without -w nothing is written to standard error unless the "
     "program ends with a fatal error; an operator that yields nil for operands "
     "it does not support, and an assignment to what cannot be assigned, warn; "
     "correct use does not.",
     "inputs", "all programs (checked: every operator on values of all types, "
     "as variables, values and constants, 29 targets x 19 uses, impossible targets, "
     "all destructuring assignments of <= 4 values)",
     NOTEST + "Warning paths are each reached by few operand types.",
     "errors.py execution.py", "ErrorReporter @ errors.py",
     "err.warn calls @ execution.py")
prop("C36", "The REPL evaluates every line like a program, and survives errors",
     "For every transcript the REPL shows the value of each expression, "
     "remembers the last three, asks for more lines exactly while what was "
     "typed is incomplete, reports syntax errors, fatal errors and interrupts "
     "and goes on with its state as it was then, obeys its commands and their "
     "abbreviations, and ends at ;quit or the end of input.",
     "histories", "all transcripts (checked: all sequences of <= 3 of 36 lines, "
     "all splits of 12 programs into lines, all command abbreviations, fatal "
     "errors at any place of a line, an interrupt before each line of output)",
     NOTEST + "State at a prompt depends on the whole history.",
     "pip.py execution.py", "repl() @ pip.py",
     "updateHistoryVars executeStatement @ execution.py")
prop("C37", "Every text is a program that runs, or is refused with an error",
     "For every text, arguments and standard input, the interpreter ends with "
     "the program's output, or with a syntax or fatal error reported on standard "
     "error after what had been printed; no internal error, Python traceback or "
     "other exception reaches the user or the embedding program.",
     "inputs", "all texts (checked: all texts of <= 3 of 31 characters, all "
     "two-letter names in 25 contexts, 70 mistakes in 10 contexts, deep "
     "nesting, byte sequences that are no UTF-8)",
     NOTEST + "Totality is a statement about all texts.",
     "pip.py scanning.py parsing.py execution.py errors.py", "pip() @ pip.py",
     "getRval evaluate executeProgram @ execution.py",
     "scan @ scanning.py", "parse @ parsing.py")
prop("C38", "Runs are independent of earlier runs",
     "A program gives the same result whatever ran before in the same process "
     "and however that ended; it never changes its caller's arguments or its "
     "parse tree; two program states do not share variables, match variables, "
     "scopes or options.",
     "histories", "all sequences of runs (checked: all pairs of 74 programs, "
     "all pairs of flags of one pattern, 22 kinds of failing programs "
     "before others, all mutations of arguments, all sequences of <= 3 of 13 command lines)",
     NOTEST + "Leaks show only in particular pairs of programs.",
     "execution.py ptypes.py pip.py", "ProgramState @ execution.py: "
     "executeProgram WIPEGLOBALS", "List.outFormat @ ptypes.py")
prop("C39", "Transcendental functions and roots are accurate everywhere",
     "Trigonometric, exponential, logarithmic, power, root and quotient "
     "operators give the mathematical value to within rounding at every operand "
     "of their domain, nil outside it, satisfy their identities, and map over "
     "lists.",
     "inputs", "all numbers (checked: 27 functions of one and 10 of two "
     "operands on a grid of about 100 numbers and its square against 40-digit "
     "arithmetic; 17 identities)",
     NOTEST + "Signs, zeros and domain borders multiply.",
     "execution.py", "math operators @ execution.py: SIN COS TAN ARCTAN EXPONENT "
     "LN LOG SQRT POW ROOT DIV DEGREES RADIANS")
prop("C40", "Every short program means what the language definition says",
     "For every sequence of tokens and every small program, the interpreter "
     "accepts it exactly if it is well formed, and then its output, last value "
     "and final variables are those of the language definition (an independent "
     "big-step reference).",
     "inputs", "all programs (checked: all sequences of <= 4 of about 18 tokens "
     "for 7 themes, all texts of <= 4 of 20 characters, all programs of <= 5-6 "
     "nodes of 7 grammars: 1.8 million programs)",
     NOTEST + "Features interact; only whole programs show it.",
     "scanning.py parsing.py execution.py operators.py ptypes.py",
     "parse @ parsing.py", "evaluate executeStatement functionCall "
     "@ execution.py")
prop("C41", "Every operator is defined, as documented, on operands of all types",
     "Each unary, binary and ternary operator, its assignment, fold, scan, map "
     "and lambda-building forms, and all compositions of two operators give the "
     "documented value for operands of every type, with nil (not an error) for "
     "unsupported ones.",
     "inputs", "all operators and values (checked: 113 unary, 109 binary and 7 "
     "ternary operators on all tuples of 61/39/11 values, all pairs of "
     "operators)",
     NOTEST + "About 230 operators x 6 types per operand; the tests have 15 "
     "cases.",
     "execution.py operators.py", "operator table @ operators.py",
     "operator methods @ execution.py", "evaluate @ execution.py")
prop("C42", "An operand means the same in every form, an expression everywhere",
     "An operator gives the same value whether an operand is written as a "
     "literal, variable, item at any depth, call result, assignment, history "
     "variable, popped or conditional value; an expression has the same value "
     "wherever it stands (statement, argument, list item, body, condition, "
     "assigned value).",
     "inputs", "all expressions (checked: 22 forms of each operand of all "
     "unary, binary and ternary operators and folds, of functions, indices and "
     "conditions, sends of all heads and arguments, pairs of forms, and 22 "
     "contexts of every operator: 420 000 "
     "programs)",
     NOTEST + "Operands reach the operators as values, targets or unevaluated "
     "expressions; each operator resolves them itself.",
     "execution.py", "evaluate getRval @ execution.py", "operator methods "
     "@ execution.py")
prop("C43", "Literals have the written value; escaped strings insert values",
     "A string, character, pattern or number literal stands for exactly the "
     "characters written; an escaped string stands for its text with each "
     "doubled backslash a backslash and each backslashed name replaced by the "
     "text of that variable's value at that moment, each evaluated once, from "
     "left to right, wherever the literal is used.",
     "inputs", "all literals (checked: all literals of <= 3 of 18 characters, "
     "escaped strings of <= 3 of 21 parts, all pairs of 45 names, values of "
     "all types in all list formats, operands of every operator)",
     NOTEST + "Escapes, names and neighbouring text combine freely.",
     "parsing.py ptypes.py scanning.py", "escaped strings @ parsing.py: "
     "parseOperand", "token values @ ptypes.py: toPipType", "tokens @ "
     "scanning.py")
