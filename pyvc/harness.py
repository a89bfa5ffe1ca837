"""Contracts: registration, inputs and the two ways of running one.

A contract is a Python function h(v) that builds inputs (the precondition),
calls functions of the repository and states postconditions with v.prove.
  symbolic mode: inputs are z3 terms, the repository modules are instrumented,
                 each v.prove is an obligation on every path;
  concrete mode: inputs are concrete, the repository modules are the plain
                 files; used for replay and for the bounded search.
"""
import importlib
import json
import os
import random
import re
import sys
import time
import traceback

REPO = os.environ.get("PYVC_REPO", "/repo")
SCRIPTS = os.path.join(REPO, "scripts")

CONTRACTS = {}      # name -> Contract (registration order)
LOOPS = {}          # (module, qualname, ordinal) -> LoopSpec


class Contract:
    def __init__(self, func, funcs, sym, conc, cases, loops, budget, sym_s, note, paths,
                 query_ms, exact):
        self.name = func.__name__
        self.func = func
        self.funcs = funcs          # functions under contract (for the evidence)
        self.sym = sym              # generates obligations
        self.conc = conc            # number of concrete cases (quick tier); 0: none
        self.cases = cases          # list of case arguments (each its own job)
        self.loops = loops
        self.budget = budget        # seconds for the bounded search, quick tier
        self.sym_s = sym_s
        self.note = note
        self.paths = paths
        self.query_ms = query_ms
        self.exact = exact


def contract(funcs=(), sym=True, conc=2000, cases=(None,), loops=(), budget=20, sym_s=300,
             note="", paths=200000, query_ms=10000, exact=True):
    def deco(f):
        CONTRACTS[f.__name__] = Contract(f, list(funcs), sym, conc, list(cases), list(loops),
                                         budget, sym_s, note, paths, query_ms, exact)
        return f
    return deco


def loop(mod, qual, n):
    def deco(cls):
        LOOPS[(mod, qual, n)] = cls()
        return cls
    return deco


class Skip(BaseException):
    """precondition false for this concrete input"""


class Failed(BaseException):
    def __init__(self, name, detail):
        BaseException.__init__(self, name)
        self.obl, self.detail = name, detail


_MISFIT = re.compile(r"^module '.*' has no attribute|object has no attribute '_|^type object '.*' has no attribute"
                     r"|unexpected keyword argument|positional argument|required keyword-only"
                     r"|^cannot import name|^No module named")


def misfit(exc):
    """the exception says that the contract no longer fits the code: a function or
    parameter it names is not there any more (raised in the contract itself)"""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return (isinstance(exc, (AttributeError, TypeError, ImportError)) and last is not None and
            (last.startswith(os.path.join(here, "contracts")) or
             last.startswith(os.path.join(here, "pyvc"))) and
            _MISFIT.search(str(exc)) is not None)


def _text(exc):
    """the message of an exception, which may hold symbolic text"""
    try:
        return str(exc)
    except BaseException:         # pylint: disable=broad-except
        return repr(getattr(exc, "args", ""))


class Misfit(BaseException):
    """the contract cannot be applied to this version of the code (undecided, no verdict)"""


class Stand:
    """base of stand-ins for objects whose contract is assumed: a use the assumed
    contract does not cover is not a violation"""

    def __getattr__(self, name):
        if name.startswith("pv_") or (name.startswith("__") and name.endswith("__")):
            raise AttributeError(name)
        raise Misfit("assumed contract of %s has no %s" % (type(self).__name__, name))


def stand_in(cls, base):
    """cls as a subclass of the real class, so that isinstance tests agree"""
    ns = {k: x for k, x in vars(cls).items() if k not in ("__dict__", "__weakref__")}
    for k, x in vars(Stand).items():
        if k == "__getattr__":
            ns[k] = x
    for k, x in vars(base).items():
        # plain data and properties of the real class must not hide a missing stand-in
        if k not in ns and isinstance(x, property):
            ns[k] = property(lambda self, k=k: Stand.__getattr__(self, k))
    return type(cls.__name__, (base,), ns)


class Outcome:
    """result of calling a function under contract"""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return "Outcome(%r, %r)" % (self.value, self.exc)


def setup_path():
    for p in (os.path.join(SCRIPTS, "fortran_tools"), os.path.join(SCRIPTS, "parse_tools"), SCRIPTS):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.dont_write_bytecode = True


def quiet():
    import logging
    logging.disable(logging.CRITICAL)


class Base:
    """shared by both modes"""

    def repo(self, module):
        try:
            return importlib.import_module(module)
        except ModuleNotFoundError as exc:
            if exc.name and module.startswith(exc.name):
                raise Misfit("no module %s" % module) from exc
            raise

    def note(self, *_):
        pass

    def valid(self, claim, name, detail=""):
        """obligation stated directly as a z3 formula (arithmetic read back from
        generated text): valid for all values of its variables"""
        import z3
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Not(claim))
        r = s.check()
        if self.symbolic:
            from .core import RES
            ob = RES.get("%s: %s" % (self.cname, name))
            ob.paths += 1
            if r == z3.unsat:
                return
            from . import core
            m = core.E.solver.model() if core.E.check() == z3.sat else None
            ob.status = "failed" if r == z3.sat else "undecided"
            ob.detail = "counter-model: %s" % (s.model() if r == z3.sat else "unknown")
            RES.failed.append((ob.name, core.extract_inputs(m)))
            return
        self.proved += 1
        if r != z3.unsat:
            raise Failed(name, "%s counter-model: %s" % (
                detail() if callable(detail) else detail, s.model() if r == z3.sat else "unknown"))


# ------------------------------------------------------------------ concrete
class Conc(Base):
    symbolic = False

    def __init__(self, picker, override=None):
        self.picker = picker
        self.override = override
        self.inputs = {}
        self.proved = 0
        self.names = {}
        self.log = []

    def _key(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    def _value(self, name, gen):
        k = self._key(name)
        if self.override is not None and k in self.override and self.override[k] is not None:
            val = self.override[k]
        else:
            val = gen()
        self.inputs[k] = val
        return val

    def pick(self, n):
        return self.picker.pick(n)

    def str(self, name, charset=None, nonempty=False, pool=None, maxlen=12):
        def gen():
            if pool is not None:
                return pool[self.pick(len(pool))]
            cs = sorted(charset) if charset else None
            n = self.pick(maxlen + 1 - int(nonempty)) + int(nonempty)
            if cs is None:
                cs = list("aAbz_09 ,;:'\"!&()%=.-+*/\n\t#")
            return "".join(cs[self.pick(len(cs))] for _ in range(n))
        return self._value(name, gen)

    def chars(self, name, n, alphabet):
        al = list(alphabet)
        return self._value(name, lambda: "".join(al[self.pick(len(al))] for _ in range(n)))

    def name(self, name, pool=None, lower=False, maxlen=8):
        def gen():
            if pool is not None:
                return pool[self.pick(len(pool))]
            first = "abcxyz" if lower else "abXyZ"
            rest = "abxz_019" if lower else "aBz_01"
            n = self.pick(maxlen)
            return first[self.pick(len(first))] + "".join(
                rest[self.pick(len(rest))] for _ in range(n))
        return self._value(name, gen)

    def int(self, name, lo=None, hi=None, pool=None):
        def gen():
            if pool is not None:
                return pool[self.pick(len(pool))]
            a = -5 if lo is None else lo
            b = (a + 12) if hi is None else hi
            return a + self.pick(b - a + 1)
        return self._value(name, gen)

    def bool(self, name):
        return self._value(name, lambda: bool(self.pick(2)))

    def choice(self, name, seq):
        seq = list(seq)
        i = self._value(name, lambda: self.pick(len(seq)))
        return seq[i]

    def assume(self, c):
        if not c:
            raise Skip()

    def prove(self, c, name, detail=""):
        self.proved += 1
        if not c:
            raise Failed(name, detail() if callable(detail) else detail)

    def call(self, f, *a, catch=(Exception,), **k):
        try:
            return Outcome(f(*a, **k))
        except catch as exc:
            return Outcome(exc=exc)

    def stub(self, func, contract_fn):
        pass

    # logical connectives without forking
    @staticmethod
    def And(*x):
        return all(x)

    @staticmethod
    def Or(*x):
        return any(x)

    @staticmethod
    def Not(x):
        return not x

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def Iff(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def eq(a, b):
        return a == b

    @staticmethod
    def matches(s, regex):
        return re.fullmatch(regex, s) is not None

    @staticmethod
    def isin(a, xs):
        return a in list(xs)

    @staticmethod
    def lower(s):
        return s.lower()

    @staticmethod
    def len(s):
        return len(s)

    @staticmethod
    def fmt(text, *a, **k):
        return text.format(*a, **k)

    @staticmethod
    def join(sep, xs):
        return sep.join(xs)


class RandomPicker:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def pick(self, n):
        return self.r.randrange(n) if n > 1 else 0


class Odometer:
    """enumerates every combination of picks, depth first"""

    def __init__(self):
        self.digits = []     # [value, base]
        self.pos = 0

    def start(self):
        self.pos = 0

    def pick(self, n):
        if self.pos == len(self.digits):
            self.digits.append([0, n])
        d = self.digits[self.pos]
        self.pos += 1
        return d[0]

    def advance(self):
        del self.digits[self.pos:]
        while self.digits:
            self.digits[-1][0] += 1
            if self.digits[-1][0] < self.digits[-1][1]:
                return True
            self.digits.pop()
        return False


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def run_conc(c, case, n, seconds, seed, override=None):
    """bounded search on the plain code.  Returns a result dict"""
    res = {"evaluations": 0, "skipped": 0, "distinct": 0, "exhaustive": False,
           "violation": None, "samples": [], "checks": 0}
    seen = set()
    end = time.time() + seconds

    def one(picker, over=None):
        v = Conc(picker, over)
        try:
            c.func(v) if case is None else c.func(v, case)
        except Skip:
            res["skipped"] += 1
            return None
        except Failed as exc:
            return {"obligation": "%s: %s" % (c.name, exc.obl), "detail": str(exc.detail)[:4000],
                    "inputs": {k: _jsonable(x) for k, x in v.inputs.items()}}
        except Exception as exc:     # pylint: disable=broad-except
            tb = traceback.format_exc(limit=-8)
            if misfit(exc):
                raise Misfit("contract does not fit the code: %s" % exc) from exc
            return {"obligation": "%s: no unexpected exception" % c.name,
                    "detail": "%s: %s\n%s" % (type(exc).__name__, exc, tb[-3000:]),
                    "inputs": {k: _jsonable(x) for k, x in v.inputs.items()}}
        res["evaluations"] += 1
        res["checks"] += v.proved
        key = repr(sorted(v.inputs.items(), key=lambda kv: kv[0]))
        h = hash(key)
        if h not in seen:
            seen.add(h)
            if len(res["samples"]) < 3:
                res["samples"].append({k: _jsonable(x) for k, x in v.inputs.items()})
        return None

    if override is not None:
        res["violation"] = one(RandomPicker(0), override)
        return res
    odo = Odometer()
    budget_enum = n
    t_enum = time.time() + seconds * 0.6
    k = 0
    # exhaustive enumeration, if it fits; else random sampling
    probe_total = None
    odo.start()
    bad = one(odo)
    if bad:
        res["violation"] = bad
        return res
    prod = 1
    for _, b in odo.digits:
        prod *= b
    if prod <= n:
        more = odo.advance()
        while more and time.time() < t_enum and k < budget_enum * 3:
            odo.start()
            bad = one(odo)
            k += 1
            if bad:
                res["violation"] = bad
                return res
            more = odo.advance()
        res["exhaustive"] = not more
    if not res["exhaustive"]:
        rng = random.Random("%s/%s/%s" % (seed, c.name, case))
        i = 0
        while i < n and time.time() < end:
            i += 1
            bad = one(RandomPicker(rng.getrandbits(64)))
            if bad:
                res["violation"] = bad
                break
    res["distinct"] = len(seen)
    return res


# ------------------------------------------------------------------ symbolic
def make_sym():
    import z3
    from . import core, sstr
    from .core import E, SBool, SInt, Unsupported, Signal

    class SymV(Base):
        symbolic = True

        def __init__(self, cname):
            self.cname = cname

        def _reg(self, name, kind, term):
            k, base = 0, name
            while name in E.inputs:
                k += 1
                name = "%s#%d" % (base, k)
            E.inputs[name] = (kind, term)
            return name

        def str(self, name, charset=None, nonempty=False, pool=None, maxlen=None):
            t = z3.String(E.fresh_name("in_" + name))
            self._reg(name, "str", t)
            cs = frozenset(charset) if charset is not None else None
            if cs is not None:
                r = sstr.re_of_set(cs)
                E.add(z3.InRe(t, z3.Plus(r) if nonempty else z3.Star(r)))
            else:
                # ASCII strings
                E.add(z3.InRe(t, z3.Star(sstr.re_of_set(sstr.ASCII))))
                if nonempty:
                    E.add(z3.Length(t) > 0)
            return sstr.mk([sstr.Atom(t, cs, nonempty)])

        def chars(self, name, n, alphabet):
            al = frozenset(alphabet)
            cs = []
            for i in range(n):
                c = z3.Int(E.fresh_name("in_%s.%d" % (name, i)))
                E.add(sstr.code_in(c, al))
                cs.append(c)
            self._reg(name, "chars", cs)
            return sstr.from_chars(cs)

        def name(self, name, pool=None, lower=False, maxlen=None):
            t = z3.String(E.fresh_name("in_" + name))
            self._reg(name, "str", t)
            cs = sstr.LOWIDCHARS if lower else sstr.IDCHARS
            first = cs - frozenset("0123456789_")
            E.add(z3.InRe(t, z3.Concat(sstr.re_of_set(first), z3.Star(sstr.re_of_set(cs)))))
            return sstr.mk([sstr.Atom(t, cs, True)])

        def int(self, name, lo=None, hi=None, pool=None):
            t = z3.Int(E.fresh_name("in_" + name))
            self._reg(name, "int", t)
            if lo is not None:
                E.add(t >= lo)
            if hi is not None:
                E.add(t <= hi)
            return SInt(t)

        def bool(self, name):
            t = z3.Bool(E.fresh_name("in_" + name))
            self._reg(name, "bool", t)
            return SBool(t)

        def choice(self, name, seq):
            seq = list(seq)
            i = E.choose(len(seq), name)
            self._reg(name, "const", i)
            return seq[i]

        def pick(self, n):
            return E.choose(n)

        def assume(self, c):
            core.assume(c)

        def prove(self, c, name, detail=""):
            core.prove(c, "%s: %s" % (self.cname, name))

        def call(self, f, *a, catch=(Exception,), **k):
            try:
                return Outcome(f(*a, **k))
            except catch as exc:
                return Outcome(exc=exc)

        def stub(self, func, contract_fn):
            E.stubs[getattr(func, "__func__", func)] = contract_fn

        And = staticmethod(core.And)
        Or = staticmethod(core.Or)
        Not = staticmethod(core.Not)
        Implies = staticmethod(core.Implies)
        Iff = staticmethod(core.Iff)

        @staticmethod
        def eq(a, b):
            return a == b

        @staticmethod
        def isin(a, xs):
            return core.Or(*[a == x for x in xs])

        @staticmethod
        def matches(s, regex):
            from . import regex as rx
            if isinstance(s, str):
                return re.fullmatch(regex, s) is not None
            cs = sstr.chars_of(s)
            if cs is not None:
                return rx.pat_match(re.compile(regex), s, "fullmatch") is not None
            return core.mkbool(rx.member(s, regex, re.compile(regex).flags, "fullmatch"))

        @staticmethod
        def lower(s):
            return s.lower()

        @staticmethod
        def len(s):
            from .hooks import m_len
            return m_len(s)

        @staticmethod
        def fmt(text, *a, **k):
            from .hooks import str_format
            return str_format(text, a, k)

        @staticmethod
        def join(sep, xs):
            from .hooks import pv_call
            return pv_call(sep.join, list(xs))

    return SymV


def run_sym(c, case, deadline_s):
    """generate and discharge the obligations of one contract"""
    import z3
    from . import core
    from .core import E, RES, Signal, Unsupported, Timeout
    SymV = make_sym()
    E.loops = {k: LOOPS[k] for k in c.loops}
    E.query_ms = c.query_ms
    E.max_paths = c.paths
    E.deadline = time.time() + deadline_s
    out = {"unsupported": None, "done_paths": 0, "exceptions": []}

    def body():
        E.stubs = {}
        v = SymV(c.name)
        try:
            c.func(v) if case is None else c.func(v, case)
        except Signal:
            raise
        except RecursionError:
            raise Unsupported("recursion limit")
        except Exception as exc:      # pylint: disable=broad-except
            if misfit(exc):
                raise Unsupported("contract does not fit the code: %s" % exc)
            tb = traceback.format_exc(limit=-6)
            model = None
            if E.check() == z3.sat:
                model = E.solver.model()
            elif E.check() == z3.unsat:
                return
            out["exceptions"].append({
                "detail": "%s: %s\n%s" % (type(exc).__name__, _text(exc), tb[-2500:]),
                "inputs": core.extract_inputs(model)})
            if len(out["exceptions"]) > 5:
                raise Unsupported("exceptions")
            return
        out["done_paths"] += 1

    err = None
    try:
        E.explore(body)
    except Unsupported as exc:
        out["unsupported"] = "Unsupported: %s | %s" % (
            exc, "".join(traceback.format_tb(exc.__traceback__, limit=-7))[-1500:])
    except Timeout as exc:
        out["unsupported"] = "Timeout: %s" % exc
    except RecursionError as exc:
        out["unsupported"] = "recursion limit"
    except z3.Z3Exception as exc:
        out["unsupported"] = "z3: %s" % exc
    out["complete"] = out["unsupported"] is None and getattr(E, "complete", False)
    out["limits"] = getattr(E, "limits", [])[:3]
    out["stats"] = E.stats
    out["obls"] = {n: {"status": o.status, "paths": o.paths, "backend": o.backend,
                       "detail": o.detail} for n, o in RES.obls.items()}
    out["failed"] = [(n, {k: _jsonable(x) for k, x in i.items()}) for n, i in RES.failed[:12]]
    return out
