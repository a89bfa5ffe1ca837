"""Meaning of the generated Fortran: a parser and an interpreter for what capgen writes.

Only what generated caps use is covered; anything else is a Misfit (undecided, no verdict).
Arrays are numpy arrays with lower bounds; sections and arguments are views, so that a
callee changes its caller's variable. There is one thread (OpenMP blocks are not compiled).
"""
import re
import numpy as np
from pyvc.harness import Misfit


class FortranError(Exception):
    """the generated code does something that is not legal or not defined"""


_TOK = re.compile(r"""\s*(?:
  (?P<num>(?:\d+\.\d*(?:[ed][+-]?\d+)?|\.\d+(?:[ed][+-]?\d+)?|\d+[ed][+-]?\d+|\d+)(?:_\w+)?)|
  (?P<log>\.(?:true|false)\.)|
  (?P<op>\.(?:and|or|not|eq|ne|lt|gt|le|ge|eqv|neqv)\.|==|/=|<=|>=|=>|\*\*|//|[-+*/<>()=,:%\[\]])|
  (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")|
  (?P<id>[a-z_]\w*))""", re.I | re.X)


def tokens(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = _TOK.match(text, i)
        if not m or m.end() == i:
            raise Misfit("generated expression %r" % text)
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Parser:
    """expressions as tuples"""
    LEVELS = [(".eqv.", ".neqv."), (".or.",), (".and.",), None,
              ("==", "/=", "<", ">", "<=", ">=", ".eq.", ".ne.", ".lt.", ".gt.", ".le.", ".ge."), ("//",), ("+", "-")]

    def __init__(self, text):
        self.text, self.toks, self.i = text, tokens(text), 0

    def peek(self):
        return self.toks[self.i][1].lower() if self.i < len(self.toks) and self.toks[self.i][0] != "str" else None

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def take(self, what=None):
        if self.i >= len(self.toks) or (what is not None and self.peek() != what):
            raise Misfit("generated expression %r (expected %s)" % (self.text, what))
        self.i += 1
        return self.toks[self.i - 1][1]

    def whole(self):
        e = self.expr()
        if self.i != len(self.toks):
            raise Misfit("generated expression %r" % self.text)
        return e

    def expr(self, level=0):
        if level == len(self.LEVELS):
            return self.term()
        ops = self.LEVELS[level]
        if ops is None:
            if self.peek() == ".not.":
                self.take()
                return ("not", self.expr(level))
            return self.expr(level + 1)
        if "+" in ops and self.peek() in ("-", "+"):
            op = self.take()
            left = ("neg", self.term()) if op == "-" else self.term()
        else:
            left = self.expr(level + 1)
        while self.peek() in ops:
            op = self.take().lower()
            left = ("bin", op, left, self.expr(level + 1))
        return left

    def term(self):
        left = self.power()
        while self.peek() in ("*", "/"):
            op = self.take()
            left = ("bin", op, left, self.power())
        return left

    def power(self):
        left = self.atom()
        if self.peek() == "**":
            self.take()
            if self.peek() in ("-", "+"):
                op = self.take()
                right = self.power()
                right = ("neg", right) if op == "-" else right
            else:
                right = self.power()
            return ("bin", "**", left, right)
        return left

    def atom(self):
        k = self.kind()
        if k == "num":
            return ("num", self.take())
        if k == "log":
            return ("log", self.take().lower() == ".true.")
        if k == "str":
            t = self.toks[self.i][1]
            self.i += 1
            return ("str", t[1:-1].replace(t[0] * 2, t[0]))
        if k == "id":
            return self.ref()
        if self.peek() == "(":
            self.take()
            e = self.expr()
            self.take(")")
            return ("par", e)
        raise Misfit("generated expression %r" % self.text)

    def ref(self):
        """name(args)%name(args)..."""
        parts = []
        while True:
            name = self.take().lower()
            args = None
            if self.peek() == "(":
                self.take()
                args = self.args()
            parts.append((name, args))
            if self.peek() != "%":
                return ("ref", parts)
            self.take()

    def args(self):
        """subscripts, sections and keyword arguments, up to the closing parenthesis"""
        out = []
        while self.peek() != ")":
            if self.kind() == "id" and self.i + 1 < len(self.toks) and self.toks[self.i + 1][1] == "=":
                kw = self.take().lower()
                self.take("=")
                out.append(("kw", kw, self.expr()))
            else:
                piece = [None]
                if self.peek() != ":":
                    piece = [self.expr()]
                if self.peek() == ":":
                    while self.peek() == ":":
                        self.take()
                        piece.append(None if self.peek() in (":", ",", ")") else self.expr())
                    out.append(("sec",) + tuple((piece + [None])[:3]))
                else:
                    out.append(("pos", piece[0]))
            if self.peek() == ",":
                self.take()
                if self.peek() == ")":
                    raise FortranError("an empty argument: %s" % self.text)
        self.take(")")
        return out


def logical_lines(text):
    """continuations joined, comments and OpenMP-only blocks removed, one statement each"""
    out, buf, skip = [], "", 0
    for n, raw in enumerate(text.splitlines(), 1):
        if raw.startswith("#"):
            word = raw[1:].split()
            if word[:1] == ["ifdef"] or skip:
                if word[:1] == ["ifdef"]:
                    if word[1:] != ["_OPENMP"]:
                        raise Misfit("preprocessor line %r" % raw)
                    skip += 1
                elif word[:1] == ["endif"]:
                    skip -= 1
                continue
            if word[:1] == ["endif"]:
                continue
            raise Misfit("preprocessor line %r" % raw)
        if skip:
            continue
        line, quote = "", None
        for c in raw:
            if quote:
                quote = None if c == quote else quote
            elif c in "'\"":
                quote = c
            elif c == "!":
                break
            line += c
        line = line.strip()
        if not line:
            continue
        if buf and line.startswith("&"):
            line = line[1:]
        buf += line
        if buf.endswith("&"):
            buf = buf[:-1]
            continue
        out.append((n, buf.strip()))
        buf = ""
    if buf:
        raise FortranError("a continued line is the last: %r" % buf)
    return out


def split_top(text, sep=","):
    out, depth, quote, cur = [], 0, None, ""
    for c in text:
        if quote:
            quote = None if c == quote else quote
        elif c in "'\"":
            quote = c
        elif c in "([":
            depth += 1
        elif c in ")]":
            depth -= 1
        if c == sep and not depth and not quote:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip() or out:
        out.append(cur.strip())
    return out


class Decl:
    def __init__(self, spec, attrs, name, dims, init, ptr):
        self.spec, self.attrs, self.name, self.dims, self.init, self.ptr = spec, attrs, name, dims, init, ptr

    @property
    def intent(self):
        for a in self.attrs:
            m = re.match(r"intent\s*\(\s*(\w+)\s*\)", a, re.I)
            if m:
                return m.group(1).lower()
        return None

    def has(self, what):
        return what in [a.lower() for a in self.attrs]


def declaration(text):
    """the declared entities of a type declaration, or None"""
    m = re.match(r"(real|integer|logical|character|complex|double\s+precision|type|class)\b", text, re.I)
    if not m or "::" not in text:
        return None
    left, right = text.split("::", 1)
    pieces = split_top(left)
    out = []
    for ent in split_top(right):
        ptr = init = None
        e = ent
        if "=>" in e:
            e, ptr = [x.strip() for x in e.split("=>", 1)]
        elif "=" in re.sub(r"\([^()]*\)", "", e):
            e, init = [x.strip() for x in e.split("=", 1)]
        m = re.match(r"(\w+)\s*(?:\((.*)\))?$", e)
        if not m:
            raise Misfit("declaration %r" % text)
        dims = None if m.group(2) is None else split_top(m.group(2))
        attrs = list(pieces[1:])
        for a in pieces[1:]:
            x = re.match(r"dimension\s*\((.*)\)$", a, re.I)
            if x:
                dims = split_top(x.group(1))
        out.append(Decl(pieces[0].strip(), attrs, m.group(1).lower(), dims, init, ptr))
    return out


class Sub:
    def __init__(self, name, args):
        self.name, self.args, self.decls, self.uses, self.body = name, args, {}, [], []


class Module:
    def __init__(self, name):
        self.name, self.decls, self.uses, self.subs, self.public, self.other = name, {}, [], {}, [], []


def use_of(line):
    m = re.match(r"use\s*(?:,\s*intrinsic\s*)?(?:::)?\s*(\w+)\s*(?:,\s*only\s*:\s*(.*))?$", line, re.I)
    if not m:
        return None
    return (m.group(1).lower(), None if m.group(2) is None else
            [[y.strip().lower() for y in (x.split("=>") if "=>" in x else [x, x])] for x in split_top(m.group(2))])


def parse(text):
    """the module in a generated file"""
    lines = logical_lines(text)
    mod = sub = None
    k = 0
    while k < len(lines):
        line = lines[k][1]
        low = line.lower()
        if mod is None:
            m = re.match(r"module\s+(\w+)$", low)
            if not m:
                raise Misfit("not a module: %r" % line)
            mod = Module(m.group(1))
        elif sub is None:
            m = re.match(r"(?:recursive\s+)?(subroutine)\s+(\w+)\s*(?:\(([^()]*)\))?\s*$", low)
            if re.match(r"end\s*module", low):
                break
            f = re.match(r"(?:\w+(?:\(.*\))?\s+)*function\s+(\w+)", low)
            if f:
                # functions are not interpreted
                mod.subs[f.group(1)] = sub = Sub(f.group(1), [])
                sub.body = Misfit("function %s" % f.group(1))
                start = k
                k += 1
                continue
            if m:
                sub = Sub(m.group(2), split_top(m.group(3) or ""))
                if sub.name in mod.subs:
                    raise FortranError("two procedures are called %s" % sub.name)
                mod.subs[sub.name] = sub
                start = k
            elif use_of(line):
                mod.uses.append(use_of(line))
            elif declaration(line):
                for d in declaration(line):
                    if d.name in mod.decls:
                        raise FortranError("%s is declared twice" % d.name)
                    mod.decls[d.name] = d
            else:
                mod.other.append(line)
        else:
            if re.match(r"end\s*(subroutine|function)\b", low):
                try:
                    if not isinstance(sub.body, Misfit):
                        head(sub, [x for _, x in lines[start + 1:k]])
                except Misfit as exc:
                    sub.body = exc        # only a misfit if it is executed
                sub = None
        k += 1
    if sub is not None:
        raise FortranError("subroutine %s has no end" % sub.name)
    return mod


def head(sub, lines):
    k = 0
    while k < len(lines):
        line = lines[k]
        u, d = use_of(line), declaration(line)
        if u:
            sub.uses.append(u)
        elif d:
            for x in d:
                if x.name in sub.decls:
                    raise FortranError("%s is declared twice in %s" % (x.name, sub.name))
                sub.decls[x.name] = x
        elif line.lower() != "implicit none":
            break
        k += 1
    for a in sub.args:
        if a not in sub.decls:
            raise FortranError("argument %s of %s is not declared" % (a, sub.name))
    if len(set(sub.args)) != len(sub.args):
        raise FortranError("an argument of %s is repeated" % sub.name)
    sub.body, rest = block(lines, k, ())
    if rest != len(lines):
        raise FortranError("statement out of place in %s: %r" % (sub.name, lines[rest]))


def matching(line, at):
    depth = 0
    for i in range(at, len(line)):
        if line[i] == "(":
            depth += 1
        elif line[i] == ")":
            depth -= 1
            if not depth:
                return i
    raise Misfit("parentheses in %r" % line)


def block(lines, k, stops):
    out = []
    while k < len(lines):
        line = lines[k]
        low = line.lower()
        if any(re.match(s, low) for s in (r"end\s*if\b", r"else\b", r"elseif\b", r"end\s*do\b")):
            return out, k
        m = re.match(r"if\s*\(", low)
        if m:
            end = matching(line, m.end() - 1)
            cond, tail = Parser(line[m.end():end]).whole(), line[end + 1:].strip()
            if tail.lower() != "then":
                out.append(("if", [(cond, [statement(tail)])]))
                k += 1
                continue
            arms = []
            while True:
                body, k = block(lines, k + 1, ())
                arms.append((cond, body))
                if k >= len(lines):
                    raise FortranError("if without end if")
                low = lines[k].lower()
                m = re.match(r"else\s*if\s*\(", low)
                if m:
                    end = matching(lines[k], m.end() - 1)
                    cond = Parser(lines[k][m.end():end]).whole()
                elif re.match(r"else$", low):
                    cond = None
                elif re.match(r"end\s*if$", low):
                    break
                else:
                    raise FortranError("if closed by %r" % lines[k])
            out.append(("if", arms))
            k += 1
            continue
        m = re.match(r"do\s+(\w+)\s*=\s*(.*)$", low)
        if m:
            rng = [Parser(x).whole() for x in split_top(line[m.start(2):])]
            body, k = block(lines, k + 1, ())
            if k >= len(lines) or not re.match(r"end\s*do$", lines[k].lower()):
                raise FortranError("do without end do")
            out.append(("do", m.group(1), rng, body))
            k += 1
            continue
        out.append(statement(line))
        k += 1
    return out, k


def statement(line):
    low = line.lower()
    if low == "return":
        return ("return",)
    m = re.match(r"call\s+", low)
    if m:
        p = Parser(line[m.end():])
        r = p.whole()
        return ("call", r, line)
    m = re.match(r"write\s*\(", low)
    if m:
        end = matching(line, m.end() - 1)
        return ("write", Parser(split_top(line[m.end():end])[0]).whole(), line)
    m = re.match(r"(allocate|deallocate|nullify)\s*\(", low)
    if m:
        end = matching(line, m.end() - 1)
        items = [x for x in split_top(line[m.end():end]) if not re.match(r"(stat|errmsg)\s*=", x, re.I)]
        return (m.group(1), [Parser(x).whole() for x in items])
    # an assignment at the top level of the parentheses
    depth, quote = 0, None
    for i, c in enumerate(line):
        if quote:
            quote = None if c == quote else quote
        elif c in "'\"":
            quote = c
        elif c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
        elif c == "=" and not depth:
            if line[i + 1:i + 2] == ">":
                return ("point", Parser(line[:i]).whole(), Parser(line[i + 2:]).whole())
            return ("assign", Parser(line[:i]).whole(), Parser(line[i + 1:]).whole(), line)
    return ("other", line)


class Arr:
    """an array or scalar with lower bounds; data is shared"""
    def __init__(self, data, lb=None):
        self.data, self.lb = data, lb or [1] * data.ndim

    def section(self, args, ev):
        """(view, is it a section)"""
        if len(args) != self.data.ndim:
            raise FortranError("%d subscripts for an array of rank %d" % (len(args), self.data.ndim))
        idx = []
        for d, a in enumerate(args):
            n, lb = self.data.shape[d], self.lb[d]
            if a[0] == "pos":
                x = ev(a[1])
                if isinstance(x, Arr) and x.data.ndim == 0:
                    x = x.data[()]
                i = int(x) - lb
                if not 0 <= i < n:
                    raise FortranError("subscript %d outside %d:%d" % (int(x), lb, lb + n - 1))
                idx.append(i)
            elif a[0] == "sec":
                step = 1 if a[3] is None else int(scalar(ev(a[3])))
                lo = (lb if step > 0 else lb + n - 1) if a[1] is None else int(scalar(ev(a[1])))
                hi = (lb + n - 1 if step > 0 else lb) if a[2] is None else int(scalar(ev(a[2])))
                pick = list(range(lo, hi + (1 if step > 0 else -1), step))
                if pick and not (lb <= min(pick) and max(pick) <= lb + n - 1):
                    raise FortranError("section %d:%d of an array with bounds %d:%d" % (lo, hi, lb, lb + n - 1))
                if not pick:
                    idx.append(slice(0, 0))
                else:
                    stop = hi - lb + (1 if step > 0 else -1)
                    idx.append(slice(lo - lb, None if stop < 0 else stop, step))
            else:
                raise Misfit("subscript")
        return Arr(self.data[tuple(idx)])


def scalar(x):
    if isinstance(x, Arr):
        if x.data.ndim:
            raise FortranError("an array where a scalar is needed")
        return x.data[()]
    return x


class Slot:
    """a named variable: its storage (None: not allocated, not associated, not present)"""
    def __init__(self, arr=None, decl=None, fields=None):
        self.arr, self.decl, self.fields, self.inactive = arr, decl, fields, False


class Return(Exception):
    pass


class Machine:
    """generated modules, host variables and a handler for scheme calls"""
    def __init__(self, texts, outer, kinds, scheme):
        """texts: generated module texts; outer(module, name) -> Slot; scheme(name, {kw: Slot or Arr or value})"""
        self.mods = {}
        for t in texts:
            m = parse(t)
            self.mods[m.name] = m
        self.outer, self.kinds, self.scheme = outer, kinds, scheme
        self.globals = {}
        for m in self.mods.values():
            self.globals[m.name] = {}
            for d in m.decls.values():
                self.globals[m.name][d.name] = self.storage(d, {"pv_mod": m})
        self.steps = 0

    # storage
    def dtype(self, d):
        s = d.spec.lower().replace(" ", "")
        if s.startswith("real"):
            k = re.match(r"real(?:\((?:kind=)?(\w+)\))?$", s)
            if not k:
                raise Misfit("type %r" % d.spec)
            return np.dtype(self.kinds.get(k.group(1), "float32") if k.group(1) else "float32")
        if s.startswith("integer"):
            return np.dtype("int64")
        if s.startswith("logical"):
            return np.dtype("bool")
        if s.startswith("character"):
            return np.dtype(object)
        return None

    def storage(self, d, frame):
        if d.dims is not None and any(x == ":" for x in d.dims) or d.has("pointer") or d.has("allocatable"):
            if not (d.has("pointer") or d.has("allocatable")):
                raise FortranError("%s(:) is neither a dummy argument, allocatable nor a pointer" % d.name)
            if d.ptr is not None and d.ptr.lower().replace(" ", "") != "null()":
                raise Misfit("pointer initialisation")
            return Slot(None, d)
        t = self.dtype(d)
        if t is None:
            return Slot(None, d)
        shape, lb = [], []
        for x in d.dims or []:
            lo, hi = ([None] + split_top(x, ":"))[-2:]
            lo = 1 if lo is None else int(scalar(self.eval(Parser(lo).whole(), frame)))
            hi = int(scalar(self.eval(Parser(hi).whole(), frame)))
            shape.append(max(0, hi - lo + 1))
            lb.append(lo)
        a = Arr(fill(shape, t), lb)
        if d.init is not None:
            a.data[...] = scalar(self.eval(Parser(d.init).whole(), frame))
        return Slot(a, d)

    # names
    def lookup(self, name, frame):
        if name in frame:
            return frame[name]
        mod, sub = frame.get("pv_mod"), frame.get("pv_sub")
        for uses in ([sub.uses] if sub is not None else []) + [None] + [mod.uses]:
            if uses is None:
                if name in self.globals[mod.name]:
                    return self.globals[mod.name][name]
                continue
            for m, only in uses:
                for local, orig in only or []:
                    if local == name:
                        if m in self.globals and orig in self.globals[m]:
                            return self.globals[m][orig]
                        s = self.outer(m, orig)
                        if s is not None:
                            return s
        raise FortranError("%s is not declared in %s" % (name, sub.name if sub else mod.name))

    def resolve(self, ref, frame, want="value"):
        """the slot (want='slot') or array a reference stands for"""
        parts = ref[1]
        slot = self.lookup(parts[0][0], frame)
        for k, (name, args) in enumerate(parts):
            if k:
                if isinstance(slot, Arr) or slot.fields is None or name not in slot.fields:
                    raise FortranError("no component %s" % name)
                slot = slot.fields[name]
            if args is not None:
                a = slot.arr
                if a is None:
                    raise FortranError("%s is not allocated, associated or present" % name)
                a = a.section(args, lambda e: self.eval(e, frame))
                if k + 1 < len(parts):
                    raise Misfit("component of an array element")
                return Slot(a, slot.decl) if want == "slot" else a
        if want == "slot":
            return slot
        if slot.arr is None:
            if slot.fields is not None:
                return slot
            raise FortranError("%s is not allocated, associated or present" % parts[-1][0])
        return slot.arr

    # expressions
    def eval(self, e, frame):
        k = e[0]
        if k == "num":
            t = e[1].lower()
            kind = None
            if "_" in t:
                t, kind = t.split("_", 1)
            if re.match(r"\d+$", t):
                return int(t)
            x = float(t.replace("d", "e"))
            dt = np.dtype(self.kinds.get(kind, "float32") if kind else "float64" if "d" in e[1].lower() else "float32")
            return dt.type(x)
        if k in ("log", "str"):
            return e[1]
        if k == "par":
            return self.eval(e[1], frame)
        if k == "neg":
            return -value(self.eval(e[1], frame))
        if k == "not":
            return not truth(self.eval(e[1], frame))
        if k == "bin":
            return self.binary(e, frame)
        if k == "ref":
            return self.reference(e, frame)
        raise Misfit("expression %r" % (e,))

    def binary(self, e, frame):
        op = {".eq.": "==", ".ne.": "/=", ".lt.": "<", ".gt.": ">", ".le.": "<=", ".ge.": ">="}.get(e[1], e[1])
        if op in (".and.", ".or."):
            # both operands may be evaluated
            a, b = truth(self.eval(e[2], frame)), truth(self.eval(e[3], frame))
            return (a and b) if op == ".and." else (a or b)
        a, b = value(self.eval(e[2], frame)), value(self.eval(e[3], frame))
        if op in (".eqv.", ".neqv."):
            return (bool(a) == bool(b)) == (op == ".eqv.")
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.ndim and b.ndim and a.shape != b.shape:
            raise FortranError("arrays of different shape: %s %s" % (a.shape, b.shape))
        if isinstance(a, str) != isinstance(b, str):
            raise FortranError("text and number in one expression")
        if op == "==":
            return a.rstrip(" ") == b.rstrip(" ") if isinstance(a, str) else a == b
        if op == "/=":
            return a.rstrip(" ") != b.rstrip(" ") if isinstance(a, str) else a != b
        if op == "//":
            return a + b
        if op == "/" and isinteger(a) and isinteger(b):
            return int(a / b)
        if op == "**" and isinteger(a) and isinteger(b):
            return int(float(a) ** float(b))
        return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                "**": lambda: a ** b}[op]()

    def reference(self, e, frame):
        name, args = e[1][0]
        if len(e[1]) == 1 and args is not None and name not in frame and name in (
                "trim", "present", "allocated", "associated", "size", "lbound", "ubound", "real", "int"):
            x = args[0][-1]
            if args[0][0] != "pos":
                x = args[0][2] if args[0][0] == "kw" else None
            if name in ("present", "allocated", "associated"):
                s = self.resolve(x, frame, "slot")
                return s.arr is not None or s.fields is not None
            y = self.eval(x, frame)
            if name == "trim":
                return str(scalar(y)).rstrip(" ")
            if name == "real":
                kind = [a for a in args[1:]]
                if not kind:
                    dt = np.dtype("float32")
                else:
                    ke = kind[0][-1] if kind[0][0] == "pos" else kind[0][2]
                    kn = ke[1] if ke[0] == "num" else ke[1][0][0]
                    dt = np.dtype(self.kinds.get(str(kn).lower(), "float32"))
                yv = value(y)
                return yv.astype(dt) if isinstance(yv, (np.ndarray, np.generic)) else dt.type(yv)
            if name == "int":
                return int(scalar(y))
            if not isinstance(y, Arr):
                raise FortranError("%s of a value" % name)
            dim = None
            if len(args) > 1:
                dim = int(scalar(self.eval(args[1][-1], frame)))
            if name == "size":
                return int(y.data.size) if dim is None else int(y.data.shape[dim - 1])
            lb = [1 if s == 0 else b for s, b in zip(y.data.shape, y.lb)]
            ub = [s + b - 1 if s else 0 for s, b in zip(y.data.shape, y.lb)]
            r = lb if name == "lbound" else ub
            return r[dim - 1] if dim is not None else Arr(np.array(r))
        return self.resolve(e, frame)

    # statements
    def run(self, body, frame):
        if isinstance(body, Misfit):
            raise body
        for s in body:
            self.steps += 1
            if self.steps > 20000:
                raise FortranError("no end in sight")
            self.step(s, frame)

    def step(self, s, frame):
        k = s[0]
        if k == "if":
            for cond, body in s[1]:
                if cond is None or truth(self.eval(cond, frame)):
                    self.run(body, frame)
                    break
        elif k == "do":
            var = self.lookup(s[1], frame)
            rng = [int(scalar(self.eval(x, frame))) for x in s[2]]
            step = rng[2] if len(rng) > 2 else 1
            i = rng[0]
            while i <= rng[1] if step > 0 else i >= rng[1]:
                var.arr.data[...] = i
                self.run(s[3], frame)
                i += step
        elif k == "return":
            raise Return()
        elif k == "assign":
            self.assign(s[1], s[2], frame, s[3])
        elif k == "point":
            dst = self.resolve(s[1], frame, "slot")
            if s[2] == ("ref", [("null", [])]):
                dst.arr = None
            else:
                src = self.resolve(s[2], frame, "slot")
                if not dst.decl.has("pointer"):
                    raise FortranError("%s is not a pointer" % dst.decl.name)
                if src.decl is not None and not (src.decl.has("target") or src.decl.has("pointer")):
                    raise FortranError("%s is not a target" % src.decl.name)
                if src.arr is not None and rank(dst.decl) != src.arr.data.ndim:
                    raise FortranError("pointer %s to a target of rank %d" % (dst.decl.name, src.arr.data.ndim))
                if src.decl is not None and src.arr is not None and src.decl.spec and not same_type(
                        dst.decl.spec, src.decl.spec):
                    raise FortranError("pointer %s: %s to %s" % (dst.decl.name, dst.decl.spec, src.decl.spec))
                dst.arr = src.arr if src.arr is None or s[2][1][-1][1] is None else Arr(src.arr.data)
        elif k == "write":
            t = self.resolve(s[1], frame)
            t.data[...] = s[2]
        elif k in ("allocate", "deallocate", "nullify"):
            for item in s[1]:
                ref = ("ref", item[1][:-1] + [(item[1][-1][0], None)])
                slot = self.resolve(ref, frame, "slot")
                if k == "nullify":
                    slot.arr = None
                elif k == "deallocate":
                    if slot.arr is None:
                        raise FortranError("deallocate of %s, which is not allocated" % item[1][-1][0])
                    slot.arr = None
                else:
                    if slot.arr is not None:
                        raise FortranError("allocate of %s, which is allocated" % item[1][-1][0])
                    if slot.decl is None or not (slot.decl.has("allocatable") or slot.decl.has("pointer")):
                        raise FortranError("allocate of %s, which is not allocatable" % item[1][-1][0])
                    self.allocate(slot, item[1][-1][1] or [], frame)
        elif k == "call":
            self.call_stmt(s[1], frame, s[2])
        else:
            raise Misfit("statement %r" % (s[1],))

    def allocate(self, slot, dims, frame):
        if len(dims) != rank(slot.decl):
            raise FortranError("allocate %s with %d bounds" % (slot.decl.name, len(dims)))
        shape, lb = [], []
        for d in dims:
            lo, hi = (None, d[1]) if d[0] == "pos" else (d[1], d[2])
            lo = 1 if lo is None else int(scalar(self.eval(lo, frame)))
            shape.append(max(0, int(scalar(self.eval(hi, frame))) - lo + 1))
            lb.append(lo)
        t = self.dtype(slot.decl)
        if t is None:
            slot.arr = Arr(fill(shape, np.dtype(object)), lb)
        else:
            slot.arr = Arr(fill(shape, t), lb)

    def assign(self, lhs, rhs, frame, line):
        root = self.lookup(lhs[1][0][0], frame)
        if root.decl is not None and root.decl.intent == "in":
            raise FortranError("assignment to %s, which is intent(in): %s" % (lhs[1][0][0], line))
        x = self.eval(rhs, frame)
        slot = self.resolve(lhs, frame, "slot")
        x = value(x)
        if slot.arr is None:
            if slot.decl is not None and slot.decl.has("allocatable") and isinstance(x, np.ndarray) and \
                    x.ndim == rank(slot.decl):
                # allocation on assignment
                slot.arr = Arr(fill(list(x.shape), self.dtype(slot.decl)))
            else:
                raise FortranError("assignment to %s, which has no storage: %s" % (lhs[1][0][0], line))
        a = slot.arr
        if isinstance(x, np.ndarray) and x.ndim and x.shape != a.data.shape:
            if slot.decl is not None and slot.decl.has("allocatable") and lhs[1][-1][1] is None and \
                    x.ndim == a.data.ndim:
                slot.arr = Arr(np.array(x, dtype=a.data.dtype))
                return
            raise FortranError("shapes %s and %s in %s" % (a.data.shape, x.shape, line))
        if (a.data.dtype == object) != (isinstance(x, str) or isinstance(x, np.ndarray) and x.dtype == object):
            raise FortranError("text and number in %s" % line)
        a.data[...] = np.array(x) if isinstance(x, np.ndarray) else x

    # calls
    def actual(self, e, frame):
        if e[0] == "ref" and e[1][0][0] in frame or e[0] == "ref" and e[1][-1][1] is not None:
            root = self.lookup(e[1][0][0], frame) if e[1][0][0] not in ("trim", "real", "size") else None
            for name, _ in e[1][1:]:
                if root is not None and root.fields is not None:
                    root = root.fields.get(name)
            if root is not None and root.arr is None and root.inactive:
                # callers pass sections of variables that are not active (nothing may use them)
                return root
        if e[0] == "ref" and not (len(e[1]) == 1 and e[1][0][1] is not None and e[1][0][0] in ("trim", "real", "size")):
            return self.resolve(e, frame, "slot")
        x = self.eval(e, frame)
        return Slot(Arr(np.array(x, dtype=object if isinstance(x, str) else None)), None)

    def call_stmt(self, ref, frame, line):
        name, args = ref[1][0]
        if len(ref[1]) != 1:
            raise Misfit("call of a type-bound procedure")
        acts = []
        for a in args or []:
            if a[0] == "kw":
                acts.append((a[1], self.actual(a[2], frame)))
            elif a[0] == "pos":
                acts.append((None, self.actual(a[1], frame)))
            else:
                raise FortranError("section as an argument: %s" % line)
        kws = [k for k, _ in acts if k]
        if len(set(kws)) != len(kws):
            raise FortranError("a keyword is repeated: %s" % line)
        # a procedure of this module, of a used generated module, or a scheme
        mod, sub = frame["pv_mod"], frame.get("pv_sub")
        if name in mod.subs:
            return self.enter(mod, mod.subs[name], acts)
        for m, only in (sub.uses if sub else []) + mod.uses:
            for local, orig in only or []:
                if local == name:
                    if m in self.mods:
                        return self.enter(self.mods[m], self.mods[m].subs[orig], acts)
                    return self.scheme(m, orig, acts)
        raise FortranError("procedure %s is not declared: %s" % (name, line))

    def enter(self, mod, sub, acts):
        if isinstance(sub.body, Misfit):
            raise sub.body
        frame = {"pv_mod": mod, "pv_sub": sub}
        bound = {}
        for i, (k, s) in enumerate(acts):
            k = k or (sub.args[i] if i < len(sub.args) else None)
            if k not in sub.args or k in bound:
                raise FortranError("%s has no argument %s, or it is given twice" % (sub.name, k))
            bound[k] = s
        late = []
        for a in sub.args:
            d = sub.decls[a]
            if a not in bound:
                if not d.has("optional"):
                    raise FortranError("argument %s of %s is missing" % (a, sub.name))
                frame[a] = Slot(None, d)
                continue
            frame[a] = Slot(bound[a].arr, d, bound[a].fields)
            s = bound[a]
            frame[a].inactive = s.inactive
            if s.arr is None and s.fields is None:
                if not s.inactive and not (d.has("optional") or d.has("allocatable") or d.has("pointer")):
                    raise FortranError("argument %s of %s is not allocated or associated" % (a, sub.name))
                if not s.inactive and (d.has("allocatable") or d.has("pointer")):
                    frame[a] = s
                continue
            if s.decl is not None and s.decl.intent == "in" and d.intent in ("out", "inout"):
                raise FortranError("intent(in) variable %s as intent(%s) argument" % (s.decl.name, d.intent))
            if s.fields is None:
                if rank(d) != s.arr.data.ndim:
                    raise FortranError("argument %s of %s has rank %d, not %d" % (a, sub.name, s.arr.data.ndim, rank(d)))
                if s.decl is not None and not same_type(d.spec, s.decl.spec):
                    raise FortranError("argument %s of %s is %s, not %s" % (a, sub.name, s.decl.spec, d.spec))
                if d.has("allocatable"):
                    frame[a] = Slot(s.arr, d)
                    frame[a] = s
                elif d.dims:
                    late.append((a, d))
        for a, d in late:
            arr = frame[a].arr
            lb = []
            for k, x in enumerate(d.dims):
                if ":" in x and x.strip() != ":":
                    lo, hi = split_top(x, ":") if not x.strip().endswith(":") else (x.strip()[:-1], None)
                elif x.strip() == ":":
                    lo, hi = None, None
                else:
                    lo, hi = None, x
                lo = 1 if lo is None else int(scalar(self.eval(Parser(lo).whole(), frame)))
                if hi:
                    n = int(scalar(self.eval(Parser(hi).whole(), frame))) - lo + 1
                    if n != arr.data.shape[k]:
                        raise FortranError("argument %s of %s: dimension %d is %d, not %d" % (
                            a, sub.name, k + 1, arr.data.shape[k], n))
                lb.append(lo)
            frame[a] = Slot(Arr(arr.data, lb), d)
        for d in sub.decls.values():
            if d.name not in frame:
                frame[d.name] = self.storage(d, frame)
        try:
            self.run(sub.body, frame)
        except Return:
            pass

    def call(self, modname, subname, **kw):
        m = self.mods[modname]
        self.enter(m, m.subs[subname], list(kw.items()))


def fill(shape, dtype):
    """storage whose value is not defined"""
    a = np.empty(shape, dtype=dtype)
    if a.dtype.kind == "f":
        a[...] = np.nan
    elif a.dtype == object:
        a[...] = ""
    else:
        a[...] = 0 if a.dtype.kind == "b" else -987654321
    return a


def rank(d):
    return len(d.dims or [])


def same_type(a, b):
    n = [re.sub(r"kind=", "", re.sub(r"\s+", "", x.lower())) for x in (a, b)]
    n = [re.sub(r"^character.*", "character", x) for x in n]
    n = [re.sub(r"^class\(", "type(", x) for x in n]
    return n[0] == n[1]


def isinteger(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def value(x):
    if isinstance(x, Arr):
        return x.data if x.data.ndim else x.data[()]
    if isinstance(x, Slot):
        raise Misfit("value of an object")
    return x


def truth(x):
    x = value(x)
    if not isinstance(x, (bool, np.bool_)):
        raise FortranError("not a logical value: %r" % (x,))
    return bool(x)
