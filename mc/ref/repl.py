"""Reference read-eval-print loop."""
from . import values as V
from .interp import Interp, NOVAL, Fatal
from .parse import parse, Incomplete, Bad


class Interrupt(Exception):
    """The user interrupts the execution."""


class End(Exception):
    pass


class Repl(Interp):
    """Runs a transcript.  `out` collects everything on standard output,
    `notes` what kind of line appears on standard error."""

    def __init__(self, lines, fmt=None, warn=False, budget=20000,
                 interrupt=None):
        super().__init__(fmt, lines, budget)
        self.warn = warn
        self.notes = []
        self.interrupt = interrupt

    def print(self, v, end="\n"):
        if v is None:
            return
        if self.interrupt is not None and \
                "".join(self.out).count("\n") == self.interrupt:
            self.interrupt = None
            raise Interrupt
        super().print(v, end)

    def ask(self, prompt):
        self.out.append(prompt)
        if not self.stdin:
            raise End
        return self.stdin.pop(0) + "\n"

    def run(self, banner, help_text):
        self.out.append(banner)
        try:
            while self.one(help_text):
                pass
        except End:
            pass
        self.out.append("Bye!\n")

    def one(self, help_text):
        code = self.ask(">> ")
        while True:
            try:
                tree = parse(code)
                break
            except Incomplete:
                code += self.ask(".. ")
            except Bad:
                self.notes.append("Syntax error:")
                return True
        words = code[1:].lower().split() if code[0] == ";" else []
        if words:
            w = words[0]
            if w == "x" or "quit".startswith(w) or "exit".startswith(w):
                return False
            if "help".startswith(w):
                self.out.append(help_text + "\n")
            elif "warnings".startswith(w):
                if words[1:] in ([], ["on"], ["off"]):
                    self.warn = (not self.warn if len(words) == 1
                                 else words[1] == "on")
                    self.notes.append("Warnings "
                                      + ("on" if self.warn else "off"))
        try:
            for s in tree:
                v = self.statement(s)
                if v is not NOVAL:
                    self.print(V.rep(v))
                    self.remember(v)
        except Interrupt:
            self.notes.append("Execution interrupted by user.")
        except V.Infinite:
            raise
        except Exception:
            self.notes.append("Fatal error:")
        return True
