"""Path exploration, obligations and symbolic scalar values."""
import os
import time
import z3

z3.set_param("model.completion", True)


class Signal(BaseException):
    """Engine control flow; never caught by code under verification"""


class PathEnd(Signal):
    """This path is finished (cut, or assumption false)"""


class Unsupported(Signal):
    """An operation the verifier cannot express (tool limit, not a violation)"""


class PathLimit(Signal):
    """Unrolling limit reached without an invariant"""


class Timeout(Signal):
    pass


class Engine:
    def __init__(self):
        self.active = False
        self.query_ms = 10000
        self.max_decisions = 4000
        self.max_paths = 200000
        self.deadline = None
        self.stubs = {}
        self.loops = {}
        self.reset_stats()

    def reset_stats(self):
        self.stats = {"queries": 0, "solver_s": 0.0, "paths": 0, "unknown": 0}

    # -- a path
    def start_path(self, prefix):
        self.active = True
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.pc = []
        self.prefix = prefix
        self.pos = 0
        self.fresh_ctr = {}
        self.inputs = {}      # name -> (kind, term or python value)
        self.ghost = {}
        self.trail = []
        self.approx = False

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Timeout("harness time limit")
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def add(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return
        self.pc.append(term)
        self.solver.add(term)

    def decide(self, term):
        if not self.active:
            raise Unsupported("symbolic branch outside a path")
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.add(term if val else z3.Not(term))
            self.trail.append((val, term))
            return val
        if self.pos >= self.max_decisions:
            raise PathLimit("more than %d decisions on one path" % self.max_decisions)
        can_t = not _local_unsat(term, 1000) and self.check(term) != z3.unsat
        can_f = (not _local_unsat(z3.Not(term), 1000) and
                 self.check(z3.Not(term)) != z3.unsat) if can_t else True
        if can_t and can_f:
            self.worklist.append(self.prefix + [False])
            val = True
        elif can_t:
            val = True
        else:
            val = False
        self.prefix = self.prefix + [val]
        self.pos += 1
        self.add(term if val else z3.Not(term))
        self.trail.append((val, term))
        return val

    def choose(self, n, what="choice"):
        """nondeterministic choice of 0..n-1 without a solver query"""
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                val = self.prefix[self.pos]
                self.pos += 1
            else:
                if self.pos >= self.max_decisions:
                    raise PathLimit("decisions")
                self.worklist.append(self.prefix + [False])
                val = True
                self.prefix = self.prefix + [val]
                self.pos += 1
            if val:
                return i
        return n - 1

    def fresh_name(self, base):
        k = self.fresh_ctr.get(base, 0)
        self.fresh_ctr[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def explore(self, func):
        """run func() on every path; func must be deterministic"""
        self.worklist = [[]]
        self.complete = True
        self.limits = []
        n = 0
        while self.worklist:
            prefix = self.worklist.pop()
            n += 1
            self.stats["paths"] += 1
            if n > self.max_paths:
                self.complete = False
                self.limits.append("path limit %d" % self.max_paths)
                break
            self.start_path(prefix)
            try:
                func()
            except PathEnd:
                pass
            except PathLimit as exc:
                self.complete = False
                self.limits.append(str(exc))
            finally:
                self.active = False


E = Engine()


# ---------------------------------------------------------------- booleans
class Sym:
    """base of all symbolic values"""
    __slots__ = ()


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.decide(self.t)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else SBool(z3.Not(self.t))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SBool(z3.Not(zb(r)))

    def __and__(self, o):
        return SBool(z3.And(self.t, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.t))
    __hash__ = None

    def __repr__(self):
        return "<%s>" % self.t

    # bool used as an int
    def __add__(self, o):
        return SInt(z3.If(self.t, 1, 0)) + o
    __radd__ = __add__


def zb(x):
    """z3 Bool of a Python truth value (no forking)"""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    if isinstance(x, Sym):
        return z3.BoolVal(bool(x))
    return z3.BoolVal(bool(x))


def And(*xs):
    return mkbool(z3.And(*[zb(x) for x in xs]))


def Or(*xs):
    return mkbool(z3.Or(*[zb(x) for x in xs]))


def Not(x):
    return mkbool(z3.Not(zb(x)))


def Implies(a, b):
    return mkbool(z3.Implies(zb(a), zb(b)))


def Iff(a, b):
    return mkbool(zb(a) == zb(b))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


# ---------------------------------------------------------------- integers
def zi(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x):
        return x
    raise Unsupported("not an integer: %r" % (x,))


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def _isint(o):
    return isinstance(o, (int, SInt, SBool))


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        if not _isint(o):
            return NotImplemented
        return mkint(f(self.t, zi(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        if isinstance(o, int) and o > 0:
            return mkint(self.t / o)
        raise Unsupported("// by symbolic")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.t % o)
        raise Unsupported("% by symbolic")

    def __neg__(self):
        return mkint(-self.t)

    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))

    def _cmp(self, o, f):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if not _isint(o):
            return NotImplemented
        return mkbool(f(self.t, zi(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if not _isint(o):
            return False
        return mkbool(self.t == zi(o))

    def __ne__(self, o):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if not _isint(o):
            return True
        return mkbool(self.t != zi(o))
    __hash__ = None

    def __bool__(self):
        return E.decide(self.t != 0)

    def __index__(self):
        """concretise: only if the path condition fixes the value, or by
        forking over its (finitely many, small) possible values"""
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        for k in range(0, 64):
            if E.decide(t == k):
                return k
            if E.decide(t == -k - 1):
                return -k - 1
        raise Unsupported("symbolic integer needed as index: %s" % self.t)

    __int__ = __index__

    def __repr__(self):
        return "<%s>" % self.t

    def __format__(self, spec):
        raise Unsupported("format of symbolic int")


# ---------------------------------------------------------------- obligations
class Obligation:
    __slots__ = ("name", "status", "paths", "backend", "detail", "inputs", "path")

    def __init__(self, name):
        self.name = name
        self.status = "discharged"
        self.paths = 0
        self.backend = "z3"
        self.detail = ""
        self.inputs = None


class Results:
    def __init__(self):
        self.obls = {}
        self.reached = 0
        self.failed = []     # candidate counterexamples: (name, inputs)

    def get(self, name):
        if name not in self.obls:
            self.obls[name] = Obligation(name)
        return self.obls[name]


RES = Results()


def _cvc5_unsat(pc, goal, timeout_s=20):
    """second back end: cvc5 on the SMT-LIB text of the obligation"""
    import subprocess
    import tempfile
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(goal)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
        fn = fh.name
    try:
        out = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % (timeout_s * 1000), fn],
                             capture_output=True, text=True, timeout=timeout_s + 5)
        return out.stdout.strip().startswith("unsat")
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return False
    finally:
        os.unlink(fn)


_VARS = {}


def free_vars(t):
    key = t.get_id()
    r = _VARS.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    out, stack, seen = set(), [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_app(x):
            stack.extend(x.children())
    out = frozenset(out)
    _VARS[key] = (t, out)
    return out


def _local_unsat(term, timeout_ms=3000):
    """try with the part of the path condition over the same variables
    (fewer assumptions: sound for unsat)"""
    fv = free_vars(term)
    if not fv:
        return False
    sub = [p for p in E.pc if free_vars(p) <= fv]
    if len(sub) == len(E.pc):
        return False
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*sub)
    t = time.time()
    r = s.check(term)
    E.stats["queries"] += 1
    E.stats["solver_s"] += time.time() - t
    return r == z3.unsat


def prove(cond, name):
    """Emit the obligation <name>: <cond> holds on this path."""
    ob = RES.get(name)
    ob.paths += 1
    t = z3.simplify(zb(cond))
    if z3.is_true(t):
        return
    neg = z3.Not(t)
    r = z3.unsat if _local_unsat(neg) else E.check(neg)
    if r == z3.unsat:
        if ob.status == "discharged":
            E.add(t)
        return
    if r == z3.unknown:
        if _cvc5_unsat(E.pc, neg):
            ob.backend = "z3+cvc5"
            E.add(t)
            return
        if ob.status == "discharged":
            ob.status = "undecided"
            ob.detail = "solver returned unknown for: %s" % str(t)[:600]
        RES.failed.append((name, extract_inputs(None)))
    else:
        m = E.solver.model() if r == z3.sat else None
        vals = extract_inputs(m)
        ob.status = "failed" if not E.approx or ob.status == "failed" else "undecided"
        ob.detail = "obligation not valid: %s" % str(t)[:600]
        ob.inputs = vals
        RES.failed.append((name, vals))
    # go on along the path where it holds
    E.add(t)
    if E.check() == z3.unsat:
        raise PathEnd()


def assume(cond):
    t = z3.simplify(zb(cond))
    if z3.is_true(t):
        return
    if z3.is_false(t):
        raise PathEnd()
    E.add(t)
    if E.check() == z3.unsat:
        raise PathEnd()


def _pyval(kind, term, m):
    if not z3.is_expr(term):
        return term
    if m is None:
        return None
    v = m.eval(term, model_completion=True)
    if kind == "int":
        return v.as_long() if z3.is_int_value(v) else None
    if kind == "bool":
        return z3.is_true(v)
    if kind == "str":
        if z3.is_string_value(v):
            return _unescape(v.as_string())
        return None
    return None


def _unescape(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda g: chr(int(g.group(1), 16)), s)


def extract_inputs(m):
    out = {}
    for name, (kind, term) in E.inputs.items():
        if kind == "chars":
            vals = []
            for c in term:
                if isinstance(c, str):
                    vals.append(c)
                else:
                    v = m.eval(c, model_completion=True).as_long() if m is not None else 97
                    vals.append(chr(v))
            out[name] = "".join(vals)
        else:
            out[name] = _pyval(kind, term, m)
    return out
