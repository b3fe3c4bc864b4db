"""Reference parser: textbook precedence climbing.

AST: ('tok', kind, text) | (Op, arg...) as tuples; commands are
('cmd', NAME, arg...).  Blocks of code are tuples of statements.
"""
import re
from .scan import Incomplete, Bad, scan
from .table import (OPS, COMMANDS, PAREN, LIST, BLOCK, SEND, CHAIN,
                    ASSIGN_PREC)

LITERALS = {"Number", "String", "Pattern", "Char", "EscapedString"}


def tok(kind, text):
    return ("tok", kind, text)


class Parser:
    def __init__(self, tokens):
        self.t = tokens
        self.i = 0

    @property
    def cur(self):
        return self.t[self.i]

    def is_(self, text):
        c = self.t[self.i]
        return c is not None and c[1] == text

    def take(self):
        c = self.t[self.i]
        self.i += 1
        return c

    def optional_semi(self):
        if self.is_(";"):
            self.i += 1

    # statements -----------------------------------------------------
    def program(self):
        out = []
        while self.cur is not None and not self.is_("}"):
            out.append(self.statement())
        return tuple(out)

    def statement(self):
        c = self.cur
        if c is None:
            raise Incomplete("statement")
        if c[0] == "Command":
            self.take()
            st = ["cmd", c[1]]
            for kind in COMMANDS[c[1]][1]:
                if kind == "ELSE":
                    if self.is_("EL"):
                        self.take()
                        st.append(self.block())
                    else:
                        st.append(())
                elif kind == "CODE":
                    st.append(self.block())
                elif kind == "LOOPVAR":
                    st.append(self.namelist())
                else:
                    st.append(self.expr())
            st = tuple(st)
        else:
            st = self.expr()
        self.optional_semi()
        return st

    def namelist(self):
        c = self.cur
        if c is None:
            raise Incomplete("namelist")
        if c[0] == "Name":
            self.take()
            res = tok(*c)
        elif c[1] == "[":
            self.take()
            res = [LIST]
            while not self.is_("]"):
                res.append(self.namelist())
            self.take()
            if len(res) == 1:
                raise Bad("empty namelist")
            res = tuple(res)
        else:
            raise Bad("namelist")
        self.optional_semi()
        return res

    def block(self):
        if self.is_("{"):
            self.take()
            body = self.program()
            if self.cur is None:
                raise Incomplete("block")
            self.take()     # program() stops only at None or }
            return body
        return (self.statement(),)

    # expressions ----------------------------------------------------
    def expr(self):
        e = self.climb(-1)
        self.optional_semi()
        return e

    def climb(self, minprec):
        left = self.operand()
        while True:
            c = self.cur
            if c is None or c[0] != "Operator":
                return left
            if c[1] in OPS[2]:
                op = OPS[2][c[1]]
            elif c[1] in OPS[3]:
                op = OPS[3][c[1]]
            else:
                return left
            nxt = self.t[self.i + 1]
            assign = nxt is not None and nxt[1] == ":"
            prec = ASSIGN_PREC if assign else op.prec
            if prec < minprec:
                return left
            self.take()
            if assign:
                self.take()
                op = op.but(assign=True, prec=ASSIGN_PREC, assoc="R")
            if op.arity == 3:
                mid = self.expr()
                right = self.climb(prec if op.assoc == "R" else prec + 1)
                left = (op, left, mid, right)
            elif op.assoc == "C":
                right = self.climb(prec + 1)
                if left[0] is CHAIN:
                    left = left + (op, right)
                else:
                    left = (CHAIN, left, op, right)
            else:
                right = self.climb(prec if op.assoc == "R" else prec + 1)
                left = (op, left, right)

    def operand(self):
        c = self.cur
        if c is None:
            raise Incomplete("operand")
        kind, text = c
        if kind == "EscapedString":
            self.take()
            return interpolate(text)
        if kind == "Name" or kind in LITERALS:
            self.take()
            return tok(kind, text)
        if text == "(":
            self.take()
            items = self.until(")")
            if not items:
                return tok("Nil", "()")
            if len(items) == 1:
                return (PAREN, items[0])
            return (SEND,) + items
        if text == "[":
            self.take()
            return (LIST,) + self.until("]")
        if text == "{":
            return (BLOCK, self.block())
        if text in ("$", "\\$"):
            self.take()
            o = self.cur
            if o is None:
                raise Incomplete("metaop")
            if o[1] not in OPS[2]:
                raise Bad("metaop")
            self.take()
            op = OPS[2][o[1]].but(arity=1)
            if text == "$":
                op.fold = True
            else:
                op.scan = True
        elif text in OPS[1]:
            self.take()
            op = OPS[1][text]
        else:
            raise Bad("operand")
        if self.is_("*"):
            self.take()
            op = op.but(map=True)
        if self.is_(":"):
            self.take()
            op = op.but(assign=True, prec=ASSIGN_PREC)
        return (op, self.climb(op.prec + 1))

    def until(self, close):
        items = []
        while not self.is_(close):
            if self.cur is None:
                raise Incomplete(close)
            items.append(self.expr())
        self.take()
        return tuple(items)


def interpolate(text):
    """\\"...\\" literal: \\\\ is a backslash, \\x an interpolated name."""
    raw = text[2:-2]
    parts = []       # alternating literal / name
    lit = ""
    i = 0
    while i < len(raw):
        if raw[i] == "\\" and i + 1 < len(raw):
            d = raw[i + 1]
            if d == "\\":
                lit += "\\\\"
                i += 2
                continue
            m = re.match(r"[a-z_]|[A-Z]{1,2}", raw[i + 1:])
            if m:
                parts += [lit, m.group()]
                lit = ""
                i += 1 + m.end()
                continue
        lit += raw[i]
        i += 1
    parts.append(lit)

    def esc(t):
        return tok("EscapedString", '\\"' + t + '\\"')
    if len(parts) == 1:
        return esc(parts[0])
    items = [esc(parts[0])]
    for k in range(1, len(parts), 2):
        items.append((OPS[1]["ST"], tok("Name", parts[k])))
        items.append(esc(parts[k + 1]))
    return (PAREN, (OPS[1]["J"], (LIST,) + tuple(items)))


def parse_tokens(tokens):
    return Parser(tokens).program()


def parse(code):
    return parse_tokens(scan(code))


# unparsing ------------------------------------------------------------
def unparse(stmts):
    return "; ".join(unparse_stmt(s) for s in stmts)


def unparse_stmt(s):
    if s[0] == "cmd":
        out = s[1]
        for kind, arg in zip(COMMANDS[s[1]][1], s[2:]):
            if kind in ("LOOPVAR", "EXPR"):
                out += " " + unparse_expr(arg)
            else:
                if kind == "ELSE":
                    out += " EL"
                out += " {" + unparse(arg) + "}"
        return out
    return unparse_expr(s)


def unparse_expr(e):
    if e[0] == "tok":
        return e[2]
    if e[0] == "val":
        from .values import rep
        return rep(e[1])
    op = e[0]
    if op is PAREN:
        return "(" + unparse_expr(e[1]) + ")"
    if op is BLOCK:
        return "{" + unparse(e[1]) + "}"
    if op is SEND:
        return "(" + "; ".join(map(unparse_expr, e[1:])) + ")"
    if op is LIST:
        return "[" + "; ".join(map(unparse_expr, e[1:])) + "]"

    def sub(x):
        if not isinstance(x, tuple):
            return x.show()
        s = unparse_expr(x)
        if x[0] == "val" and s[0] in "-A,.":
            return "(" + s + ")"
        if x[0] in ("tok", "val") or x[0] in (PAREN, BLOCK, SEND, LIST):
            return s
        return "(" + s + ")"
    parts = [sub(x) for x in e[1:]]
    if op is CHAIN:
        return " ".join(parts)
    if op.arity == 1:
        return f"{op.show()} {parts[0]}"
    if op.arity == 2:
        return f"{parts[0]} {op.show()} {parts[1]}"
    return f"{parts[0]} {op.show()} {parts[1]}; {parts[2]}"
