"""Totality: every text, argument and input gives output or a clean error."""
import os
import subprocess
import sys
import tempfile

from ..lib import *
from .. import drv
from ..env import pip_main

LEVEL = "model_checking"
CH = "ax1\"'`\\{}[]();$+*-:<@PIF,.?~ \n"


class Ran:
    def __init__(self, status, out, err):
        self.status, self.out, self.err = status, out, err

    def __repr__(self):
        return f"{self.status}, stdout={self.out!r}, stderr={self.err!r}"


def run_pip(code, argv=(), stdin=""):
    """pip.pip() as an embedder calls it: ok, fatal, or what escaped."""
    with drv.Console(stdin) as c:
        try:
            pip_main.pip(code, list(argv))
            st = "ok"
        except drv.Timeout:
            raise
        except drv.errors.FatalError:
            st = "fatal"
        except SystemExit as e:
            st = f"exit {e.code}"
        except BaseException as e:
            st = "escaped " + drv.detail(e)
    drv.IMPL[0] += 1
    drv.KINDS[st.split()[0]] = drv.KINDS.get(st.split()[0], 0) + 1
    drv.LAST[0] = hash((st, c.out.getvalue()))
    return Ran(st, c.out.getvalue(), c.err.getvalue())


def run_main(argv, stdin=""):
    """The command line: exit status."""
    saved = sys.argv
    sys.argv = ["pip.py"] + list(argv)
    with drv.Console(stdin) as c:
        try:
            pip_main.main()
            st = 0
        except drv.Timeout:
            raise
        except SystemExit as e:
            st = e.code
        except BaseException as e:
            st = "escaped " + drv.detail(e)
        finally:
            sys.argv = saved
    drv.IMPL[0] += 1
    kind = "ok" if st in (0, None) else "fatal"
    drv.KINDS[kind] = drv.KINDS.get(kind, 0) + 1
    drv.LAST[0] = hash((st, c.out.getvalue()))
    return Ran(st, c.out.getvalue(), c.err.getvalue())


def judge(case):
    code, args, stdin = (case if isinstance(case, tuple) else (case, (), ""))
    r = run_ref(code, list(args), None, stdin, budget=3000)
    what = f"{code!r} args {list(args)}" + (f" stdin {stdin!r}" * bool(stdin))
    o = run_pip(code, ["--"] + list(args), stdin)
    kind = {"ok": "ok"}.get(r.kind, "fatal")
    if o.status != kind:
        return f"{what}: {o!r}; expected {r!r}"
    if o.out != r.out:
        return f"{what}: prints {o.out!r}, expected {r.out!r}"
    return messages(what, r.kind, o)


def messages(what, kind, o):
    lines = o.err.rstrip("\n").split("\n")
    if kind == "ok":
        if "Fatal" in o.err:
            return f"{what}: fatal message for a good program: {o.err!r}"
        return None
    start = (("Fatal error while scanning:", "Fatal error while parsing:")
             if kind == "syntax" else ("Fatal error during execution:",))
    end = "Execution aborted." if kind == "syntax" else "Program terminated."
    if lines[-1] != end or not any(l.startswith(start) for l in lines):
        return f"{what}: bad error message {o.err!r}"
    if "Implementation error" in o.err or "Traceback" in o.err:
        return f"{what}: internal error {o.err!r}"


def judge_main(case):
    code, args, stdin = case
    r = run_ref(code, list(args), None, stdin, budget=3000)
    o = run_main(["--execute=" + code, "--"] + list(args), stdin)
    want = 0 if r.kind == "ok" else 1
    what = f"pip.py -e {code!r} {list(args)}"
    if o.status not in ((0, None) if want == 0 else (1,)):
        return f"{what}: status {o!r}, expected {want}"
    if o.out != r.out:
        return f"{what}: {o!r}, expected {r.out!r}"
    return messages(what, r.kind, o)


def judge_exec(case):
    """Mistakes in evaluated arguments (-x)."""
    from . import C34
    code, args, stdin = case
    want, out, kind = C34.expected(code, ["-x"], list(args), stdin)
    o = run_main(["-x", "--execute=" + code, "--"] + list(args), stdin)
    what = f"pip.py -x -e {code!r} {list(args)}"
    if o.status not in ((0, None) if want == 0 else (1,)):
        return f"{what}: status {o!r}, expected {want}"
    if o.out != out:
        return f"{what}: {o!r}, expected {out!r}"
    lines = o.err.rstrip("\n").split("\n")
    if kind == "ok":
        bad = "Fatal" in o.err
    else:
        bad = (lines[-1] not in ("Execution aborted.", "Program terminated.")
               or "Implementation error" in o.err or "Traceback" in o.err
               or not any(l.startswith("Fatal error ") for l in lines))
    if bad:
        return f"{what}: error messages {o.err!r}"


SHAPES = {"(": ("(", ")"), "[": ("[", "]"), "{": ("{", "}"),
          "-(": ("-(", ")"), "I": ("I1{", "}"), "?": ("1?(", ")2"),
          "fold": ("$+[", "]"), "item": ("[", "]@0"), "call": ("({", "}1)"),
          "list": ("[0 ", "]"), "-": ("- ", ""), "+": ("1+", ""),
          "**": ("1**", ""), ":": ("x:", ""), "open(": ("(", None),
          "open{": ("{", None), "open[": ("[", None), "close": ("", ")"),
          "V": ("V\"", None), "LI": ("L1{", "}"), "EI": ("I0{}EI1{", "}"),
          "str": ("\"", "\""), ";": ("1;", ""), "F": ("F i1{", "}"),
          "M": ("{", "}M[1]"), "C": ("1<", "")}


def deep_text(shape, n):
    a, b = SHAPES[shape]
    return a * n + "1" + (b or "") * n


def judge_deep(case):
    """Deeply nested code runs or is refused, but never crashes."""
    shape, n, how = case
    text = deep_text(shape, n)
    what = f"{how} with {shape!r} nested {n} times"
    if how == "-R":
        with drv.Console(text + "\n" + (";\n)\n" if n < 5 else "")
                         + "\"\"\n40+2\n;q\n") as c:
            try:
                pip_main.pip(None, ["-R"])
                st = "ok"
            except drv.Timeout:
                raise
            except BaseException as e:
                st = "escaped " + drv.detail(e)
        drv.IMPL[0] += 1
        out = c.out.getvalue()
        if st != "ok" or not out.endswith("Bye!\n") or (
                SHAPES[shape][1] is not None and "42\n" not in out):
            return f"{what}: {st} {out[-200:]!r} {c.err.getvalue()[-200:]!r}"
        return None
    argv = {"-e": ["--execute=" + text], "-v": ["-v", "--execute=" + text],
            "-x": ["-x", "--execute=a", "--", text]}[how]
    o = run_main(argv)
    drv.STEPS[0] += 1
    lines = o.err.rstrip("\n").split("\n")
    if o.status in (0, None):
        bad = "Fatal" in o.err
    else:
        bad = (o.status != 1 or "Traceback" in o.err
               or lines[-1] not in ("Execution aborted.",
                                    "Program terminated.")
               or not any(l.startswith("Fatal error ") for l in lines))
    if bad:
        return (f"{what}: status {o.status}, stdout {o.out[-100:]!r}, "
                f"stderr {o.err[-300:]!r}")
    if n <= 20 and how == "-e":
        return judge((text, (), ""))


def judge_prompt(case):
    """Everything that could be typed without a program on the command line,
    also if it ends early."""
    entry, stdin = case
    with drv.Console(stdin) as c:
        try:
            getattr(pip_main, entry)()
            st = "ok"
        except drv.errors.FatalError:
            st = "fatal"
        except SystemExit as e:
            st = "exit"
        except drv.Timeout:
            raise
        except BaseException as e:
            st = "escaped " + drv.detail(e)
    drv.IMPL[0] += 1
    drv.STEPS[0] += 1
    drv.KINDS[st.split()[0]] = drv.KINDS.get(st.split()[0], 0) + 1
    err = c.err.getvalue()
    if (st.startswith("escaped") or "Traceback" in err
            or st == "fatal" and "Fatal error" not in err
            and "Could not" not in err):
        return f"pip.{entry}() given {stdin!r}: {st} {err[-300:]!r}"


def judge_bytes(case):
    """Standard input, arguments and files that are no text: a process of
    its own, in which standard input and output are strict UTF-8."""
    mode, data = case
    data = data.encode("latin-1")
    script = os.path.join(os.path.dirname(os.path.abspath(
        pip_main.__file__)), "pip.py")
    argv = [sys.executable, script]
    given = b""
    with tempfile.TemporaryDirectory(prefix="pipmc") as d:
        if mode == "file":
            path = os.path.join(d, "code.pip")
            with open(path, "wb") as f:
                f.write(data)
            argv.append(path)
        elif mode in ("-e", "-ve", "-a", "-xa", "name"):
            word = data.replace(b"\0", b"")
            argv += {"-e": ["-e", b"\"" + word + b"\""],
                     "-ve": ["-ve", b"\"" + word + b"\""],
                     "-a": ["-e", "RP g", "--", word],
                     "-xa": ["-xe", "RP g", "--", b"\"" + word + b"\""],
                     "name": [b"no such " + word]}[mode]
        else:
            given = data
            argv += {"-i": ["-i"], "-r": ["-re", "RP g"],
                     "-rx": ["-rxe", "RP g"], "-R": ["-R"], "q": ["-e", "q.q"],
                     "W": ["-e", "W#Yq Py"], "iv": ["-iv"],
                     "none": ["-e", "1"],
                     "run": ["-c", "import sys;sys.path.insert(0,"
                             + repr(os.path.dirname(script)) + ");sys.argv="
                             "['pip.py'];import pip;pip.run()"]}.get(mode, [])
            if mode == "run":
                del argv[1]
        try:
            p = subprocess.run(argv, input=given, cwd=d, timeout=60,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=dict(os.environ, PYTHONUTF8="0",
                                        LC_ALL="C.UTF-8",
                                        PYTHONIOENCODING="utf-8:strict",
                                        PYTHONDONTWRITEBYTECODE="1"))
        except subprocess.TimeoutExpired:
            return f"pip.py {argv[2:]} given {given!r} does not end"
    drv.IMPL[0] += 1
    drv.STEPS[0] += 1
    err = p.stderr.decode("utf-8", "replace")
    drv.LAST[0] = hash((p.returncode, p.stdout))
    try:
        data.decode("utf-8")
        text = True
    except UnicodeError:
        text = False
    bad = p.returncode not in (0, 1) or "Traceback" in err
    if mode == "name":
        bad |= p.returncode != 1 or "Could not read" not in err
    elif mode == "run":
        bad |= p.returncode != 0
    elif p.returncode == 1:
        bad |= ("Fatal error" not in err
                and not (mode == "file" and "Could not read" in err))
    if not text and mode not in ("none", "name", "run", "W", "q", "prompt"):
        bad |= p.returncode != 1
    if mode == "none":
        bad |= p.returncode != 0 or p.stdout != b"1\n"
    if text and ("codec" in err or "decode" in err):
        bad = True
    if bad:
        return (f"pip.py {argv[2:]} given {given!r}: status {p.returncode}, "
                f"stdout {p.stdout[-200:]!r}, stderr {err[-300:]!r}")


ERRORS = ("+", "x+", "1 2", "(", "\"", "{", "}", "]", "1EL2", "$",
          "$a", "I", "F", "F 1", "F[]", "{;", "P", "9**\"9\"", "EX 9999",
          "#(1,())", "1,()J1", "`(`~1", "`(`", "\"a\"~`[`", "V\"(\"",
          "V\"1 2 +\"", "({f}1)", "({(f)})", "(f)", "{(f a)}1",
          "5X\"a\"", "\"a\"R`(`1", "10.0**400", "EX 800", "V\"\"",
          "RV(0,())", "-a", "x:(0,()) x", "(0,())+\"a\"", "l@l",
          "C 99999999", "\"\\\"@0", "r:()", "q", "q+q", "[q q q]",
          "S", "PB", "WG", "WG 1", "1TB 0", "\"z\"FB 99", "1.5.5",
          "..", "::", "???", "1???2", "1?2", "1?2 3", "1?2;3",
          "[1 2]@[[0]]", "{a b c d e f g}", "\\a\\b\\g", "\\f", "$",
          "2E64", "2E-1", "0E-1", "-8E0.5", "SQ\"a\"", "RT-4", "LN-1")


def sweeps(tier):
    deep = tier == "thorough"

    def every():
        for n in range(0, 4 if not deep else 5):
            for t in map("".join, product(CH, repeat=n)):
                if "PIP" not in t:      # prints the Tao of Pip
                    yield t

    def letters():
        up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        for a in up:
            yield a
            for b in up:
                for s in ("{}", "{} a", "a{}", "a {} b", "{}1", "1{}", "1{}2",
                          "{}[1 2]", "[1 2]{}2", "\"ab\"{}\"b\"", "{}()",
                          "(){}()", "{}{{a}}", "{{a}}{}[1]", "{}:1", "x{}:1",
                          "${}[1 2]", "\\${}[3 4]", "{}*[1 2]", "1{}2;3",
                          "{}\"x\"", "`a`{}`b`", "{}`a`", "a{}", "{}x{{1}}"):
                    yield s.format(a + b)

    def unicode():
        for c in list(range(0, 256)) + [0x2028, 0x3bb, 0xd7ff, 0xe000, 0xfeff,
                                        0x10000, 0x1f600, 0x10ffff]:
            c = chr(c)
            for s in ("{}", "\"{}\"", "'{}", "`{}`", "1{}2", "x{}:1",
                      "\\\"{}\\\"", "{{{}}}", "[{}]", "a{}", "{}\n1",
                      "A\"{}\"", "\"{}\"^\"{}\""):
                yield s.replace("{}", c).replace("{{", "{").replace("}}", "}")

    def errors():
        for e in ERRORS:
            for p in ("{}", "P 5;{}", "{};P 5", "I 0{{{}}}", "I 1{{{}}}",
                      "({{{}}}1)", "[{}]", "P {}", "x:{}", "V\"{}\""):
                for args, stdin in (((), ""), (("7",), "l1\nl2"),
                                    (("a", ""), "x\n")):
                    yield (p.replace("{{", "\0").replace("}}", "\1")
                           .replace("{}", e).replace("\0", "{")
                           .replace("\1", "}"), args, stdin)

    def arguments():
        texts_ = ["", "a", "1", "-1", "--", "-x", "[1;2]", "\"", "\n", " ",
                  "é", "0.0", "1e5", "{a}"]
        for args in seqs(texts_, 0, 3 if deep else 2):
            for p in ("a", "g", "[a b c]", "a+b", "#g", "RP g", "J g", "(f)@0",
                      "a.b", "V a", "`a`.a", "{a}", "\\b"):
                yield (p, args, "")

    def inputs():
        lines = ["", "a", "\n", "1\n2", "x\n\n", "é", " y ", "a\r\nb"]
        for i in lines:
            for j in lines:
                for p in ("q", "[q q]", "q;q;q", "W x:q{P x}", "L 3{P q}",
                          "a+q", "V q", "{q}M,3", "q.q"):
                    yield (p, ("5",), i + "\n" + j)

    def evaluated():
        for e in ERRORS + ("P 1", "x:5", "5", "I 1{x}", ";a", "'", "\"a", "` `"):
            for a in ((e,), ("1", e), (e, "1"), (e, e), ("1", e, "2")):
                for p in ("RP g", "P 5;x", "+"):
                    yield (p, a, "l1\n")

    def deeply():
        for n in [*range(1, 12), 20, 30, *range(40, 500, 20 if not deep else 3),
                  1000, 3000, 10000]:
            for shape in SHAPES:
                for how in ("-e", "-v", "-x", "-R"):
                    if not (how == "-R" and shape in ("-", "close")):
                        yield (shape, n, how)

    def prompts():
        for n in range(0, 4 if not deep else 5):
            for t in product(["", "\n", "-R", "-e P1", " ", "x", "'", "\"a",
                              "-", "-h", "-i", "-r", "-nope", "P q", "(",
                              ";q"], repeat=n):
                yield (("pip", "run")[n % 2], "".join(t))
                yield (("pip", "run")[n % 2], "\n".join(t))

    def undecodable():
        for t in seqs((b"a\n", b"\xff", b"\xc3\xa9\n", b"\xe9\n",
                       b"5;"), 1, 3 if deep else 2):
            for mode in ("-i", "-r", "-rx", "-R", "q", "W", "iv", "none",
                         "run", "prompt", "file", "-e", "-ve", "-a", "-xa",
                         "name"):
                yield (mode, b"".join(t).decode("latin-1"))

    return [Sweep("bytes", undecodable, judge_bytes, "all input of <= "
                  f"{3 if deep else 2} pieces, some no UTF-8, in 16 places,"
                  " processes"),
            Sweep("prompts", prompts, judge_prompt, "all short texts typed "
                  "at the prompts"),
            Sweep("deep", deeply, judge_deep, "26 kinds of nesting at "
                  "all depths in steps, to 10000"),
            Sweep("evaluated", evaluated, judge_exec,
                  "all mistakes as evaluated arguments"),
            Sweep("texts", every, judge, "all texts of <= "
                  f"{4 if deep else 3} of {len(CH)} characters"),
            Sweep("names", letters, judge, "all two-letter names and "
                  "operators in 25 contexts"),
            Sweep("characters", unicode, judge, "all of Latin-1 and others "
                  "in 13 contexts"),
            Sweep("errors", errors, judge, "70 mistakes in 10 contexts"),
            Sweep("status", errors, judge_main, "the same, through main()"),
            Sweep("arguments", arguments, judge, "all lists of arguments"),
            Sweep("inputs", inputs, judge, "standard input")]
