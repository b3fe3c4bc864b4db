"""The command line: program sources, flags, arguments, exit status."""
import atexit
import os
import re
import shutil
import subprocess
import sys
import tempfile

from ..lib import *
from .. import drv
from ..env import pip_main, version
from ..ref.interp import Interp, Fatal
from ..ref.parse import Incomplete, Bad
from ..ref.scan import scan
from .C37 import run_main, messages, Ran

LEVEL = "model_checking"
FORMATS = {"-p": "p", "-P": "P", "-s": "s", "-S": "S", "-n": "n", "-l": "l",
           "--repr": "p", "--reprlines": "P", "--space": "s",
           "--spacelines": "S", "--newline": "n", "--lines": "l"}
SOURCES = ("-e", "--execute", "-f", "--file", "-i", "--stdin", "arg")
_files = {}
_dir = []


def path_of(text):
    """A file with this text."""
    if text not in _files:
        p = os.path.join(_dir[0], f"{os.getpid()}-{len(_files)}.pip")
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        _files[text] = p
    return _files[text]


def cleanup(case):
    """Workers leave without atexit: remove what this case wrote."""
    for t in list(_files):
        os.unlink(_files.pop(t))


def expected(program, flags, args, stdin):
    """(status, exact stdout or (head, tail), messages kind)"""
    fl = set(flags)
    fmts = [f for f in flags if f in FORMATS]
    if len(set(FORMATS[f] for f in fmts)) > 1:
        return 2, "", None
    if fl & {"-V", "--version"}:
        return 0, (f"Pip {version.VERSION} (updated {version.COMMIT_DATE})\n",
                   ""), "ok"
    fmt = FORMATS[fmts[0]] if fmts else None
    debug = bool(fl & {"-d", "--debug"})
    verbose = debug or bool(fl & {"-v", "--verbose"})
    if debug:
        fmt = "p"
    head = None
    if verbose:
        head = (f"{len(program.encode('utf-8'))} bytes (UTF-8), "
                f"{len(program)} characters\n\n")
    if fl & {"-r", "--readlines"}:
        args = stdin.split("\n")
        if args[-1] == "":
            args.pop()
        stdin = ""
    r = reference(program, args, fmt, stdin,
                  bool(fl & {"-x", "--exec-args"}))
    status = 0 if r.kind == "ok" else 1
    return status, (r.out if head is None else (head, r.out)), r.kind


def reference(program, args, fmt, stdin, exec_args):
    if not exec_args:
        return drv.run_ref(program, args, fmt, stdin, 5000)
    try:
        tree = drv.ref_tree(program)
        trees = [drv.ref_tree(a) for a in args]
    except (Incomplete, Bad) as e:
        return drv.Outcome("syntax", "", "", repr(e))
    lines = stdin.split("\n")
    if lines[-1] == "":
        lines.pop()
    it = Interp(fmt, lines, 5000)
    try:
        vals = []
        for t in trees:
            if t and t[0][0] == "cmd":
                raise Skip
            vals.append(it.rval(t[0]) if t else None)
        it.run_program(tree, vals)
        kind = "ok"
    except (drv.Infinite, RecursionError, drv.Timeout):
        raise Skip
    except Skip:
        raise
    except Exception as e:
        return drv.Outcome("fatal", it.output(), "", repr(e))
    finally:
        drv.STEPS[0] += 5000 - it.budget
    return drv.Outcome(kind, it.output())


def tokens_of(text):
    return [t[1] for t in scan(text) if t]


def agree(what, o, want, program, exec_args=False):
    status, out, kind = want
    got = 0 if o.status in (0, None) else o.status
    if got != status:
        return f"{what}: {o!r}, expected status {status}"
    if status == 2:
        return None if not o.out and "usage:" in o.err else f"{what}: {o!r}"
    if isinstance(out, tuple):
        head, tail = out
        if not (o.out.startswith(head) and o.out.endswith(tail)):
            return f"{what}: {o!r}, expected {head!r} ... {tail!r}"
        if kind == "ok" and head.endswith("characters\n\n"):
            mid = o.out[len(head):len(o.out) - len(tail)]
            if not mid.endswith("\n\n"):
                return f"{what}: no blank line before the output: {o!r}"
            listing = mid.split("\n\n")[0]
            if "\n" not in program and tokens_of(listing) != tokens_of(
                    program):
                return f"{what}: tokens listed as {listing!r}"
    elif o.out != out:
        return f"{what}: {o!r}, expected stdout {out!r}"
    if exec_args and status == 1:
        return None if "Fatal error" in o.err else f"{what}: {o!r}"
    return messages(what, kind, o)


def judge(case):
    source, program, flags, args, stdin = case
    try:
        flags = list(flags)
        given = stdin
        if source in ("-e", "--execute"):
            argv = flags + [source, program]
        elif source in ("-f", "--file"):
            argv = flags + [source, path_of(program)]
        elif source in ("-i", "--stdin"):
            # the program is all of standard input
            argv = flags + [source]
            given = program + ("\n" if program[-1:] == "\n"
                               or program and len(flags) % 2 else "")
            stdin = ""
        else:
            argv = flags + [path_of(program)]
        argv += list(args)
        want = expected(program, flags, list(args), stdin)
        o = run_main(argv, given)
        return agree(f"pip.py {argv} stdin {given!r}", o, want, program,
                     bool(set(flags) & {"-x", "--exec-args"}))
    finally:
        cleanup(case)


def judge_pip(case):
    """pip.pip() and pip.run() with a code parameter."""
    entry, program, argv, args = case
    want = expected(program, (), list(args), "")
    saved = drv.Console("")
    with saved as c:
        try:
            r = getattr(pip_main, entry)(program, argv)
            st = 0
        except drv.errors.FatalError:
            st = 1
        except SystemExit as e:
            st = e.code
        except drv.Timeout:
            raise
        except BaseException as e:
            st = "escaped " + drv.detail(e)
    drv.IMPL[0] += 1
    o = Ran(st, c.out.getvalue(), c.err.getvalue())
    drv.LAST[0] = hash(o.out)
    if entry == "run" and want[0] == 1:
        want = (0,) + want[1:]      # run() swallows the error
    return agree(f"pip.{entry}({program!r}, {argv!r})", o, want, program)


def split(text):
    """The argument string: words, with quotes, no escapes."""
    words, cur, quote = [], None, None
    for ch in text:
        if quote:
            if ch == quote:
                quote = None
            else:
                cur += ch
        elif ch in "'\"":
            quote, cur = ch, cur or ""
        elif ch == " ":
            if cur is not None:
                words.append(cur)
            cur = None
        else:
            cur = (cur or "") + ch
    if quote:
        raise Skip
    return words + ([cur] if cur is not None else [])


def judge_string(text):
    """Arguments in one string."""
    args = split(text)
    if entry_sees_options(args):
        raise Skip
    return judge_pip(("pip", "RP g", text, tuple(args)))


def entry_sees_options(args):
    return any(a.startswith("-") for a in args)


def judge_usage(argv):
    """Nothing to run, or not a command line."""
    o = run_main(argv)
    drv.STEPS[0] += 1
    fmts = {FORMATS[a] for a in argv if a in FORMATS}
    if any(a in ("-h", "--help") for a in argv):
        ok = (o.status in (0, None) and "usage:" in o.out
              or o.status == 2 and (len(fmts) > 1 or "--nope" in argv))
    elif "--nope" in argv or len(fmts) > 1 or "-e" in argv:
        ok = o.status == 2 and not o.out
    elif "-V" in argv:
        ok = o.status in (0, None) and o.out.startswith("Pip ")
    else:
        ok = (o.status in (0, None) and "-h for usage" in o.out
              and not o.err)
    if not ok:
        return f"pip.py {list(argv)}: {o!r}"


def judge_interactive(case):
    """pip() and run() without parameters ask for a command line and, if it
    names no program, for the program."""
    entry, line, program, flags, args = case
    with drv.Console(line + "\n" + program) as c:
        try:
            getattr(pip_main, entry)()
            st = 0
        except drv.errors.FatalError:
            st = 1
        except SystemExit as e:
            st = e.code
        except drv.Timeout:
            raise
        except BaseException as e:
            st = "escaped " + drv.detail(e)
    drv.IMPL[0] += 1
    drv.LAST[0] = hash(c.out.getvalue())
    want = expected(program, flags, list(args), "")
    status, out, kind = want
    if entry == "run" and status == 1:
        status = 0
    tail = out[1] if isinstance(out, tuple) else out
    got = c.out.getvalue()
    lines = got.split("\n")
    ok = (st == status and lines[0].startswith("=== Welcome to Pip, version ")
          and got.endswith(tail))
    if ok and tail and not isinstance(out, tuple):
        ok = got[:len(got) - len(tail)].endswith("\n")
    o = Ran(st, got, c.err.getvalue())
    what = f"pip.{entry}() given the line {line!r} and {program!r}"
    return (None if ok else f"{what}: {o!r}, expected ... {out!r}"
            ) or messages(what, kind, o)


def judge_process(case):
    """The script run as a process of its own, with real files and pipes."""
    source, program, flags, args, stdin = case
    argv = [sys.executable, os.path.join(os.path.dirname(
        os.path.abspath(pip_main.__file__)), "pip.py"), *flags]
    given = stdin
    d = tempfile.mkdtemp(prefix="pipmc")
    try:
        path = os.path.join(d, "code.pip")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(program)
        if source == "-i":
            argv.append("-i")
            given, stdin = program, ""
        else:
            argv += {"-e": ["-e", program], "-f": ["-f", path],
                     "arg": [path]}[source]
        argv += args
        try:
            p = subprocess.run(argv, input=given.encode("utf-8"), cwd=d,
                               stdout=subprocess.PIPE, timeout=60,
                               stderr=subprocess.PIPE, env=dict(
                                   os.environ, PYTHONUTF8="1",
                                   PYTHONDONTWRITEBYTECODE="1"))
        except subprocess.TimeoutExpired:
            return f"{argv[2:]} does not end"
        left = sorted(os.listdir(d))
    finally:
        shutil.rmtree(d)
    drv.IMPL[0] += 1
    o = Ran(p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8"))
    drv.LAST[0] = hash(o.out)
    if left != ["code.pip"]:
        return f"pip.py {argv[2:]} leaves files {left}"
    return agree(f"process pip.py {argv[2:]} stdin {given!r}", o,
                 expected(program, flags, list(args), stdin), program,
                 "-x" in flags)


def judge_unreadable(case):
    flags, name, args = case
    d = tempfile.mkdtemp(prefix="pipmc")
    try:
        path = {"missing": os.path.join(d, "no.pip"), "dir": d,
                "under": os.path.join(d, "no", "no.pip"),
                "binary": os.path.join(d, "b.pip")}[name]
        if name == "binary":
            with open(path, "wb") as f:
                f.write(b"\xff\xfeP\x80")
        o = run_main(list(flags) + [path] + list(args))
    finally:
        shutil.rmtree(d)
    drv.STEPS[0] += 1
    if o.status != 1 or o.out or "Could not read from file" not in o.err:
        return f"pip.py {flags} {name} {args}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    if not _dir:
        # made by the parent process, which removes it
        _dir.append(tempfile.mkdtemp(prefix="pipmc"))
        atexit.register(shutil.rmtree, _dir[0], ignore_errors=True)
    progs = ["l:[1;[2;3]]l", "g", "q.q", "[a b]", "P a;ZQ@5", "", "#g\nx\n",
             "1 2 (", "P 1;#(1,())", "\"é\".a;;c", "[q;'x];{b}", "x:a\nx\n\n",
             "a+1"]
    allflags = ["-p", "-P", "-s", "-S", "-n", "-l", "-d", "-v", "-w", "-r",
                "-x", "-V"]
    long = ["--repr", "--reprlines", "--space", "--spacelines", "--newline",
            "--lines", "--debug", "--verbose", "--warnings", "--readlines",
            "--exec-args", "--version"]
    argss = [(), ("5",), ("x", "[1;2]"), ("", "a b", "7")]

    def flags():
        """All pairs (thorough: triples) of flags from all sources."""
        fs = [f for f in seqs(allflags, 0, 3 if deep else 2)] + \
            [(f,) for f in long]
        for f in fs:
            for p in progs:
                for s in ("-e", "-f", "-i", "arg"):
                    if s == "-e" and p[:1] == "-":
                        continue
                    yield (s, p, f, argss[2], "u\nv\n")

    def sources():
        """Every short program from every source, with every argument list."""
        for p in map("".join, seqs("aq1;\n \"é[](){}", 0, 3 if deep else 2)):
            for s in SOURCES:
                yield (s, p, ("-p",), ("5",), "i1\ni2")
        for p in progs:
            for s in SOURCES:
                for a in argss:
                    for i in ("", "\n", "a\nb", "a\n\nb\n\n"):
                        yield (s, p, (), a, i)

    def readlines():
        """-r: the lines of standard input are the arguments."""
        for i in map("".join, seqs(("a", "\n", " ", "5"), 0, 5)):
            for p in ("RP g", "RP[q a]"):
                yield ("-e", p, ("-r",), ("no",), i)
                for f in (("-r", "-x"), ("-x", "-r", "-p"), ("-r", "-v"),
                          ("-r", "-d", "-x"), ("-w", "-r", "-x")):
                    yield ("-e", p, f, (), i)

    def lines():
        """q: each line of standard input, exactly."""
        for i in map("".join, seqs(("a", "\n", " ", "\t", "0", '"'), 0,
                                   5 if deep else 4)):
            for p in ("RP q", "RP[q q]", "x:q F c x P A c"):
                yield ("-e", p, (), (), i)
        for n in (1, 2, 3, 10, 100, 1000, 5000):
            for i in ("a" * n, " " * n, "a\n" * n, " \n" * n,
                      "a" + " " * n + "b", "\n" * n + "a"):
                yield ("-e", "RP q", (), (), i)
                yield ("-e", "L 5 RP q", (), (), i)
                yield ("-e", "W x:q P #x", (), (), i)
                yield ("-e", "P #g", ("-r",), (), i)

    def evaluated():
        """-x: arguments are evaluated, in order, sharing variables."""
        pool = ["", "5", "x", "[1;2]", "x:7", "x+1", "\"a\"", "()", "{a}",
                "1,4", "`a`", "x 9", " ", "ZQ", "[x;y:3]", "y", "q", "l",
                "1 2", "(", "'", "I", "3@1", "a", "$_", "U x", "-1", "/0",
                "l:[4]", "l@0:5", "\\a", "f", "m"]
        for a in seqs(pool, 0, 3 if deep else 2):
            if not any(x.startswith("-") for x in a):
                for p in ("RP g", "RP[a x y l]"):
                    yield ("-e", p, ("-x",), a, "in\n")
        for t in map("".join, seqs("a1+;[]{}()\"'", 0, 4 if deep else 3)):
            if not t.startswith("-"):
                yield ("-e", "RP g", ("-x",), (t, "2"), "")

    def entry():
        for p in progs + ["g", "a+b"]:
            for a in argss + [("-3",), ("--", "x")]:
                for e in ("pip", "run"):
                    if e == "pip" or a:
                        yield (e, p, ["--"] + list(a), a)
            yield ("run", p, None, ())
            yield ("pip", p, [], ())
            yield ("pip", p, ["--", 5, 2.5], ("5", "2.5"))

    def entries():
        for e, p, argv, a in entry():
            yield (e, p, None if argv is None else tuple(argv), a)

    def judge_entry(case):
        e, p, argv, a = case
        return judge_pip((e, p, None if argv is None else list(argv), a))

    def strings():
        yield from map("".join, seqs(("a", " ", "'", '"', "é"), 0,
                                     8 if deep else 6))

    def usage():
        yield from seqs(["-p", "-s", "-w", "-r", "-x", "-v", "-d", "-V", "-h",
                         "--nope", "--help", "-l"], 1, 3)
        yield ("-e",)
        yield ("-p", "-e")

    def unreadable():
        for f in seqs(["-p", "-w", "-r", "-v", "-x", "-f"], 0, 2):
            if "-f" in f[:-1]:
                continue
            for n in ("missing", "dir", "under", "binary"):
                for a in argss:
                    yield (f, n, a)

    def interactive():
        for e in ("pip", "run"):
            for line, flags, args in (
                    ("", (), ()), ("5", (), ("5",)), ("-p 5", ("-p",), ("5",)),
                    ("'a b' \"\" c", (), ("a b", "", "c")),
                    ("-x -p [1;2] x:3", ("-x", "-p"), ("[1;2]", "x:3")),
                    ("-v 7", ("-v",), ("7",)), ("-V", ("-V",), ()),
                    ("-i 8", (), ("8",)), ("-ws a b c", ("-w", "-s"),
                                           ("a", "b", "c"))):
                for p in progs + ["RP g", "g\n", "P a\nP b"]:
                    yield (e, line, p, flags, args)

    def process():
        for p in ["RP g", "q", "P a;ZQ@5", "#(1,())", "(", "\"é\".a",
                  "l:[1;[2;3]]l", "", "W q{P y}", "C128512"]:
            for f, a, i in (((), (), "in\n"), (("-p",), ("é", "b c"), ""),
                            (("-r", "-s"), (), "x\né\n\n"),
                            (("-x",), ("[1;2]", "a"), ""),
                            (("-w", "-n"), ("",), "1"), (("-v",), ("5",), "z"),
                            (("-d",), ("5",), "z"),
                            (("-p", "-s"), (), ""), (("-V",), (), "")):
                for s in ("-e", "-f", "-i", "arg"):
                    yield (s, p, f, a, i)

    def many():
        for n in (9, 26, 60, 300):
            args = tuple(str(i * 7) for i in range(n))
            for p in ("RP g", "RP[a b c d e #g g@-1]", "$+g", "P g"):
                for s in ("-e", "-f"):
                    yield (s, p, (), args, "")
                    yield (s, p, ("-x", "-p"), args, "")
                yield ("-e", p, ("-r",), ("no",), "\n".join(args))
                yield ("-e", p, ("-r", "-p"), (), "\n".join(args) + "\n")
            for s in SOURCES:
                yield (s, "P a;" * n + "\n\n" + "x:1\n" * n + "x", (), ("u",),
                       "in\n")
                yield (s, '"' + "é\n" * n + '"', ("-v",), ("u",), "")

    return [Sweep("interactive", interactive, judge_interactive,
                  "9 lines typed x 16 programs typed"),
            Sweep("process", process, judge_process, "360 processes"),
            Sweep("many", many, judge, "up to 300 arguments, long programs"),
            Sweep("flags", flags, judge, "all sequences of <= "
                  f"{3 if deep else 2} of 12 flags x 13 programs x 4 sources"),
            Sweep("sources", sources, judge, "all short programs from 7 "
                  "kinds of source"),
            Sweep("readlines", readlines, judge, "all inputs of <= 5 pieces"),
            Sweep("lines", lines, judge, "all inputs of <= 4 of 6 characters"),
            Sweep("evaluated", evaluated, judge, "evaluated arguments"),
            Sweep("entry points", entries, judge_entry, "pip() and run()"),
            Sweep("strings", strings, judge_string, "all argument strings of "
                  f"<= {8 if deep else 6} of 5 characters"),
            Sweep("usage", usage, judge_usage, "all sequences of <= 3 of 12 "
                  "options without a program"),
            Sweep("unreadable", unreadable, judge_unreadable,
                  "files that cannot be read")]
