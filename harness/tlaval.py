"""Reading of TLA+ values, as TLC prints them.

Tuples and sets become lists, records and functions dictionaries, numbers of
module Rat ("#3/2", "#inf") floats (exact for the cases used here).
"""
import re
from fractions import Fraction

TOKEN = re.compile(r'\s*(<<|>>|\|->|:>|@@|[\[\](){},]|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_][A-Za-z_0-9]*)')


def number(s):
    if s in ("#inf", "#-inf", "#nan"):
        return float(s[1:])
    f = Fraction(s[1:])
    return float(f)


class _Parser:
    def __init__(self, s):
        self.t = TOKEN.findall(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def seq(self, end):
        out = []
        while self.peek() != end:
            out.append(self.value())
            if self.peek() == ",":
                self.next()
        self.next()
        return out

    def value(self):
        t = self.next()
        if t == "<<":
            return self.seq(">>")
        if t == "{":
            return self.seq("}")
        if t == "[":
            d = {}
            while self.peek() != "]":
                k = self.next()
                assert self.next() == "|->"
                d[k] = self.value()
                if self.peek() == ",":
                    self.next()
            self.next()
            return d
        if t == "(":
            d = {}
            while True:
                k = self.value()
                assert self.next() == ":>"
                d[tuple(k) if isinstance(k, list) else k] = self.value()
                if self.next() == ")":
                    return d
        if t[0] == '"':
            s = t[1:-1]
            return number(s) if s[:1] == "#" else s
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        return int(t)


def parse(s):
    p = _Parser(s)
    v = p.value()
    assert p.i == len(p.t), s
    return v
