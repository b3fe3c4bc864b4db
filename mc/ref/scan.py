"""Reference scanner: a hand-written character-level scanner.

A token is a pair (kind, text); kinds are the public token classes:
Operator, Command, Symbol, Name, Number, String, Pattern, Char,
EscapedString.
"""
from .table import ALLOPS, COMMANDS

_OPS_LONGEST = sorted((o for o in ALLOPS), key=lambda t: (-len(t), t))


class Incomplete(Exception):
    pass


class Bad(Exception):
    pass


def _upper(c):
    return "A" <= c <= "Z"


def _lower(c):
    return "a" <= c <= "z"


def _ascii_digit(c):
    return "0" <= c <= "9"


def classify(text):
    if text in ALLOPS:
        return "Operator"
    if text in COMMANDS:
        return "Command"
    if text[0] == "'":
        return "Char"
    if text[0] == '"':
        return "String"
    if text[:2] == '\\"':
        return "EscapedString"
    if text[0] == "`":
        return "Pattern"
    if text in ("[", "]", "(", ")", "{", "}", ";", "$", "\\$", "EL"):
        return "Symbol"
    if text[0].isdecimal():
        return "Number"
    return "Name"


def _match_token(s, i):
    """Length of the token starting at s[i]; 0 if there is none."""
    n = len(s)
    c = s[i]
    # names
    if _upper(c):
        j = i
        while j < n and _upper(s[j]):
            j += 1
        return j - i
    if (_lower(c) and c != "j") or c == "_":
        return 1
    if c == "$" and i + 1 < n:
        d = s[i + 1]
        if d in "][()$`'" or _ascii_digit(d):
            return 2
        if _lower(d):
            j = i + 2
            while j < n and (_lower(s[j]) or _ascii_digit(s[j])
                             or s[j] == "_"):
                j += 1
            return j - i
        if d == "_":
            j = i + 1
            while j < n and s[j] == "_" and j - i < 4:
                j += 1
            return j - i
    if c == "\\" and i + 1 < n and s[i + 1] in "abcdefg":
        return 2
    # literals
    if c == '"':
        j = s.find('"', i + 1)
        if j >= 0:
            return j + 1 - i
        return 0
    if c == "`":
        j = i + 1
        while j < n:
            if s[j] == "`":
                return j + 1 - i
            if s[j] == "\\":
                if j + 1 >= n or s[j + 1] == "\n":
                    return 0
                j += 2
            else:
                j += 1
        return 0
    if c == "'":
        return 2 if i + 1 < n else 0
    if c == "\\" and i + 1 < n and s[i + 1] == '"':
        j = i + 2
        while j < n:
            if s[j] == "\\":
                if j + 1 >= n:
                    break
                if s[j + 1] == '"':
                    return j + 2 - i
                j += 2
            else:
                j += 1
        return 0
    if c.isdecimal():
        j = i
        while j < n and s[j].isdecimal():
            j += 1
        if j + 1 < n and s[j] == "." and s[j + 1].isdecimal():
            j += 1
            while j < n and s[j].isdecimal():
                j += 1
        return j - i
    # symbols
    if c in "][(){};$":
        return 1
    if s.startswith("\\$", i):
        return 2
    for op in _OPS_LONGEST:
        if s.startswith(op, i):
            return len(op)
    return 0


def tokenize(code, ignored=None):
    """List of (kind, text).  Raises Incomplete.  `ignored`, if a list,
    collects ignored characters."""
    s = "\n" + code
    n = len(s)
    i = 0
    out = []
    while i < n:
        # whitespace run followed by ';' and containing a newline: comment
        j = i
        while j < n and s[j].isspace():
            j += 1
        if j < n and s[j] == ";" and "\n" in s[i:j]:
            while j < n and s[j] != "\n":
                j += 1
            i = j
            continue
        if s.startswith("  ", i):
            while i < n and s[i] != "\n":
                i += 1
            continue
        if s.startswith("{;", i):
            k = s.find(";}", i + 2)
            if k < 0:
                raise Incomplete("block comment")
            i = k + 2
            continue
        if j > i:
            i = j
            continue
        length = _match_token(s, i)
        if length:
            text = s[i:i + length]
            if _upper(text[0]):
                if text == "PIP":
                    length = 3
                else:
                    length = 1 if length % 2 else 2
                text = text[:length]
                if text == "EI":
                    text = "EL"
                    length = 1
            out.append((classify(text), text))
            i += length
        elif s[i] in "\"`'" or s.startswith('\\"', i):
            raise Incomplete("literal")
        else:
            if ignored is not None:
                ignored.append(s[i])
            i += 1
    return out


def scan(code):
    return tokenize(code + "\n") + [None]
