"""Reading back generated Fortran text: tokens, arithmetic expressions, assignments.

Works on plain strings and on the engine's symbolic strings: every symbolic part
is one opaque word of the text."""
import re
from fractions import Fraction

MARK = "\u0394"       # letters standing for symbolic parts: MARK + digits + MARK


class Text:
    """a generated text with its symbolic parts replaced by marks"""

    def __init__(self, s):
        self.marks = []
        if isinstance(s, str):
            self.text = s
            return
        from pyvc import sstr
        out = []
        for p in sstr.parts_of(s):
            if isinstance(p, str):
                out.append(p)
            else:
                out.append("%s%d%s" % (MARK, len(self.marks), MARK))
                self.marks.append(sstr.mk([p]))
        self.text = "".join(out)

    def back(self, t):
        """the (symbolic) string a piece of the text stands for"""
        if MARK not in t:
            return t
        out = None
        for k, piece in enumerate(re.split("%s([0-9]+)%s" % (MARK, MARK), t)):
            x = self.marks[int(piece)] if k % 2 else piece
            out = x if out is None else out + x
        return out


TOKEN = re.compile(r"\s*(?:(?P<num>(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[EeDd][+-]?[0-9]+)?)"
                   r"(?P<kind>_[A-Za-z%(m)s][A-Za-z0-9_%(m)s]*)?"
                   r"|(?P<id>[A-Za-z_%(m)s][A-Za-z0-9_%(m)s]*)"
                   r"|(?P<op>\*\*|[-+*/(),:%%=]))" % {"m": MARK})


class BadText(Exception):
    pass


def tokens(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if m is None:
            raise BadText("not a Fortran expression: %r" % text)
        i = m.end()
        if m.group("num"):
            out.append(("num", m.group("num"), (m.group("kind") or "_")[1:]))
        elif m.group("id"):
            out.append(("id", m.group("id")))
        else:
            out.append((m.group("op"),))
    out.append(("end",))
    return out


class Parser:
    """expression grammar; leaf(tree) gives the value of a number or reference"""

    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self):
        return self.t[self.i][0]

    def take(self, kind=None):
        x = self.t[self.i]
        if kind is not None and x[0] != kind:
            raise BadText("expected %s, found %r" % (kind, x))
        self.i += 1
        return x

    def all(self):
        e = self.expr()
        self.take("end")
        return e

    def expr(self):
        neg = None
        if self.peek() in ("+", "-"):
            neg = self.take()[0]
        e = self.term()
        if neg == "-":
            e = ("neg", e)
        while self.peek() in ("+", "-"):
            op = self.take()[0]
            e = (op, e, self.term())
        return e

    def term(self):
        e = self.factor()
        while self.peek() in ("*", "/"):
            op = self.take()[0]
            e = (op, e, self.factor())
        return e

    def factor(self):
        if self.peek() == "num":
            _, n, k = self.take()
            return ("num", n, k)
        if self.peek() == "(":
            self.take()
            e = self.expr()
            self.take(")")
            return e
        name = self.take("id")[1]
        args = None
        if self.peek() == "(":
            self.take()
            args = self.args()
            self.take(")")
        parts = [(name, args)]
        while self.peek() == "%":
            self.take()
            name = self.take("id")[1]
            args = None
            if self.peek() == "(":
                self.take()
                args = self.args()
                self.take(")")
            parts.append((name, args))
        return ("ref", parts)

    def section(self):
        """expr or section triplet"""
        ends = [None]
        if self.peek() not in (":", ",", ")"):
            ends[0] = self.expr()
        n = 1
        while self.peek() == ":":
            self.take()
            n += 1
            ends.append(None if self.peek() in (":", ",", ")") else self.expr())
        if n == 1:
            return ends[0]
        return ("section",) + tuple(ends)

    def args(self):
        out = []
        if self.peek() == ")":
            return out
        out.append(self.section())
        while self.peek() == ",":
            self.take()
            out.append(self.section())
        return out


def parse(text):
    return Parser(text).all()


def number(n):
    return Fraction(re.sub("[dD]", "E", n))


def value(tree, leaf):
    """evaluate with +,-,*,/ of whatever leaf returns"""
    op = tree[0]
    if op == "num" or op == "ref":
        return leaf(tree)
    if op == "neg":
        return -value(tree[1], leaf)
    a, b = value(tree[1], leaf), value(tree[2], leaf)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()


def leaves(tree):
    if tree[0] in ("num", "ref"):
        yield tree
        return
    for x in tree[1:]:
        yield from leaves(x)


def zreal(fr):
    import z3
    fr = Fraction(fr)
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))
