"""Run-time hooks called by instrumented code, and models of builtins."""
import builtins
import re
import string as _string
import z3
from .core import (E, Sym, SBool, SInt, Signal, Unsupported, PathEnd, mkbool, mkint, zb, zi,
                   And, Or, Not, prove, assume)
from .sstr import SStr, Atom, Ch, is_str, mk, parts_of, chars_of, zs, str_eq, from_chars
from . import regex as rx


class FrozenKey:
    pass


# ------------------------------------------------------------- containers
def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)) and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and type(x) is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def _symkey(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, (SymDict,)):
        return False
    return isinstance(k, tuple) and any(_symkey(x) for x in k)


def keq(a, b):
    """key equality (no fork)"""
    if a is b:
        return True
    r = a == b
    return r


class SymDict:
    """insertion-ordered dictionary whose keys may be symbolic"""
    def __init__(self, pairs=()):
        self.items_ = []       # list of [key, value]
        for k, v in pairs:
            self[k] = v

    def _find(self, k):
        # concrete fast path keeps the usual semantics
        for i, (kk, _) in enumerate(self.items_):
            if _truth(keq(kk, k)):
                return i
        return -1

    def __contains__(self, k):
        return self._find(k) >= 0

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError("symbolic key")
        return self.items_[i][1]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i < 0:
            self.items_.append([k, v])
        else:
            self.items_[i][1] = v

    def __delitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError("symbolic key")
        self.items_.pop(i)

    def get(self, k, d=None):
        i = self._find(k)
        return d if i < 0 else self.items_[i][1]

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i < 0:
            self.items_.append([k, d])
            return d
        return self.items_[i][1]

    _nodef = object()

    def pop(self, k, d=_nodef):
        i = self._find(k)
        if i < 0:
            if d is SymDict._nodef:
                raise KeyError("symbolic key")
            return d
        return self.items_.pop(i)[1]

    def keys(self):
        return [k for k, _ in self.items_]

    def values(self):
        return [v for _, v in self.items_]

    def items(self):
        return [(k, v) for k, v in self.items_]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.items_)

    def update(self, o=(), **kw):
        for k, v in (o.items() if hasattr(o, "items") else o):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return SymDict(self.items())

    def clear(self):
        self.items_ = []

    def __eq__(self, o):
        raise Unsupported("dict equality")
    __hash__ = None


class SymSet:
    def __init__(self, it=()):
        self.e = []
        for x in it:
            self.add(x)

    def _find(self, k):
        for i, kk in enumerate(self.e):
            if _truth(keq(kk, k)):
                return i
        return -1

    def add(self, k):
        if self._find(k) < 0:
            self.e.append(k)

    def discard(self, k):
        i = self._find(k)
        if i >= 0:
            self.e.pop(i)

    def remove(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError("symbolic element")
        self.e.pop(i)

    def __contains__(self, k):
        return self._find(k) >= 0

    def __iter__(self):
        return iter(list(self.e))

    def __len__(self):
        return len(self.e)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = SymSet(self.e)
        r.update(*its)
        return r
    __or__ = union

    def intersection(self, o):
        return SymSet([x for x in self.e if x in o])
    __and__ = intersection

    def difference(self, o):
        return SymSet([x for x in self.e if not c_in(x, o)])
    __sub__ = difference

    def issubset(self, o):
        return all(c_in(x, o) for x in self.e)
    __le__ = issubset

    def copy(self):
        return SymSet(self.e)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return False
        return (all(c_in(x, o) for x in self.e) and all(c_in(x, self) for x in o))
    __hash__ = None


def _truth(x):
    return x if isinstance(x, bool) else bool(x)


_DICT_SHADOW = {}     # id(dict) -> (dict, SymDict): real dicts that got symbolic keys


def _shadow(d):
    r = E.ghost.get(("dict", id(d))) if E.active else None
    return r[1] if r else None


def _make_shadow(d):
    sd = SymDict()
    sd.items_ = [[k, v] for k, v in dict.items(d)]
    E.ghost[("dict", id(d))] = (d, sd)
    return sd


class _Poison:
    """stands in a real set for its symbolic elements; any use of it that is not modelled stops the proof"""
    def __init__(self):
        pass

    def __repr__(self):
        raise Unsupported("unmodelled use of a set with symbolic elements")

    def _bad(self, *a):
        raise Unsupported("unmodelled use of a set with symbolic elements")
    __str__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = __eq__ = __ne__ = __getattr__ = _bad
    __format__ = _bad

    def __hash__(self):
        return 7


def _setshadow(x):
    """the symbolic set which a real set became, if any"""
    if E.active and "sets" in E.ghost and isinstance(x, set):
        r = E.ghost.get(("set", id(x)))
        return r[1] if r else None
    return None


def _make_setshadow(x):
    sh = SymSet()
    sh.e = list(x)
    E.ghost["sets"] = True
    E.ghost[("set", id(x))] = (x, sh)
    set.add(x, _Poison())
    return sh


_SETM = ("add", "update", "union", "intersection", "difference", "issubset", "copy", "__contains__", "__iter__",
         "__len__")


def set_method(self_, name, args):
    """method of a real set with symbolic elements, or with symbolic operands"""
    sh = _setshadow(self_)
    if sh is None:
        if name not in ("add", "update"):
            sh = SymSet()
            sh.e = list(self_)
        else:
            sh = _make_setshadow(self_)
    if name not in _SETM:
        raise Unsupported("set.%s with symbolic elements" % name)
    return getattr(sh, name)(*args)


# ------------------------------------------------------------- operators
def c_in(a, c):
    """truth value of `a in c`, forking where needed"""
    if is_str(c):
        if isinstance(a, str) and isinstance(c, str):
            return a in c
        if not is_str(a):
            raise TypeError("'in <string>' requires string as left operand")
        if isinstance(c, str):
            if chars_of(a) is None and len(c) <= 64:
                opts = sorted({c[i:j] for i in range(len(c)) for j in range(i, len(c) + 1)})
                return _truth(Or(*[str_eq(a, o) for o in opts]))
            from .sstr import mkwrap
            return _truth(mkwrap(c).pv_contains(a))
        return _truth(c.pv_contains(a))
    if isinstance(c, dict):
        sd = _shadow(c)
        if sd is not None:
            return a in sd
        if _symkey(a):
            ks = list(dict.keys(c))
            t = [keq(k, a) for k in ks]
            return _truth(Or(*t)) if t else False
        return a in c
    if isinstance(c, (set, frozenset, type({}.keys()))):
        sh = _setshadow(c)
        if sh is not None:
            return a in sh
        if _symkey(a) or any(_symkey(k) for k in c):
            t = [keq(k, a) for k in c]
            return _truth(Or(*t)) if t else False
        return a in c
    if isinstance(c, (list, tuple)):
        if _symkey(a) or any(isinstance(k, Sym) for k in c):
            t = [keq(k, a) for k in c]
            return _truth(Or(*t)) if t else False
        return a in c
    return a in c


def pv_in(a, c):
    if hasattr(type(c), "pv_contains_key"):
        return c.pv_contains_key(a)
    return c_in(a, c)


def pv_getitem(o, i):
    if isinstance(o, dict) and (_symkey(i) or _shadow(o) is not None):
        sd = _shadow(o)
        if sd is not None:
            return sd[i]
        for k in list(dict.keys(o)):
            if _truth(keq(k, i)):
                return dict.__getitem__(o, k)
        raise KeyError("symbolic key")
    if isinstance(o, str) and isinstance(i, (SInt, slice)):
        if isinstance(i, SInt):
            return _index_concrete(o, i)
        if isinstance(i.start, Sym) or isinstance(i.stop, Sym):
            from .sstr import mkwrap
            return mkwrap(o)[i] if o else ""
        return o[i]
    if isinstance(o, (list, tuple)) and isinstance(i, SInt):
        return _index_concrete(o, i)
    if isinstance(i, slice) and isinstance(o, (list, tuple)):
        i = slice(_cidx(i.start), _cidx(i.stop), _cidx(i.step))
    return o[i]


def _cidx(x):
    return x.__index__() if isinstance(x, SInt) else x


def _index_concrete(seq, i):
    n = len(seq)
    for k in range(n):
        if E.decide(i.t == k):
            return seq[k]
        if E.decide(i.t == k - n):
            return seq[k - n]
    raise IndexError("index out of range")


def pv_setitem(o, i, v):
    if isinstance(o, dict) and (_symkey(i) or _shadow(o) is not None):
        sd = _shadow(o) or _make_shadow(o)
        sd[i] = v
        return
    if isinstance(o, list) and isinstance(i, SInt):
        o[i.__index__()] = v
        return
    o[i] = v


def pv_delitem(o, i):
    if isinstance(o, dict) and (_symkey(i) or _shadow(o) is not None):
        sd = _shadow(o) or _make_shadow(o)
        del sd[i]
        return
    if isinstance(o, list) and isinstance(i, SInt):
        del o[i.__index__()]
        return
    del o[i]


def pv_eq(a, b):
    return a == b


def pv_ne(a, b):
    return a != b


_FMT = re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])")


def pv_mod(a, b):
    if isinstance(a, (int, float)) and not isinstance(b, Sym):
        return a % b
    if isinstance(a, str) and has_sym(b):
        args = list(b) if isinstance(b, tuple) else [b]
        out, pos, n = [], 0, 0
        for m in _FMT.finditer(a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(5) == "%":
                out.append("%")
                continue
            if m.group(1) or m.group(2) or m.group(3) or m.group(4):
                raise Unsupported("%% format with options")
            out.extend(parts_of(to_str(args[n])))
            n += 1
        out.append(a[pos:])
        return mk(out)
    return a % b


def to_str(x, conv=None, spec=""):
    """str(x), with format spec"""
    if isinstance(x, SBool):
        return "True" if bool(x) else "False"
    if isinstance(x, SStr):
        if conv in ("r", 114):
            return mk(["'"] + list(x.parts) + ["'"])
        if spec not in ("", "s"):
            return _pad(x, spec)
        return x
    if isinstance(x, SInt):
        if spec not in ("", "d"):
            raise Unsupported("int format spec")
        if x.t.sort() == z3.IntSort():
            return mk([Atom(z3.If(x.t >= 0, z3.IntToStr(x.t),
                                  z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.t))),
                            frozenset("0123456789-"), True)])
    if isinstance(x, (list, tuple)) and has_sym(x) and type(x) in (list, tuple):
        out = ["[" if isinstance(x, list) else "("]
        for k, y in enumerate(x):
            if k:
                out.append(", ")
            out.extend(parts_of(to_str(y, "r")))
        if isinstance(x, tuple) and len(x) == 1:
            out.append(",")
        out.append("]" if isinstance(x, list) else ")")
        return mk(out)
    if conv in ("r", 114):
        return repr(x)
    if conv in ("a", 97):
        return ascii(x)
    tp = type(x)
    if tp.__format__ is not object.__format__ and tp not in (str, int, float, bool) and not conv:
        return pv_call(tp.__format__, x, spec)
    if tp.__str__ is not object.__str__ and tp.__module__ != "builtins" and not spec:
        return pv_call(tp.__str__, x)
    if tp.__repr__ is not object.__repr__ and tp.__module__ != "builtins" and not spec:
        return pv_call(tp.__repr__, x)
    return format(str(x) if conv in ("s", 115) else x, spec)


_SPEC = re.compile(r"(?:(.)?([<>^]))?(\d+)?s?$")


def _pad(x, spec):
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported("format spec %r" % spec)
    fill, al, w = m.group(1) or " ", m.group(2) or "<", int(m.group(3) or 0)
    n = x.pv_len()
    if isinstance(n, SInt):
        if bool(n >= w):
            return x
        n = n.__index__()
    k = max(0, w - n)
    if al == "<":
        return x + fill * k
    if al == ">":
        return fill * k + x
    return fill * (k // 2) + x + fill * (k - k // 2)


def pv_fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, conv, spec = p
            if isinstance(spec, SStr):
                raise Unsupported("symbolic format spec")
            out.extend(parts_of(to_str(v, None if conv == -1 else conv, spec)))
    return mk(out)


_fmt = _string.Formatter()


def str_format(fmt, args, kwargs):
    out, auto = [], 0
    for lit, field, spec, conv in _fmt.parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        first, rest = _string._string.formatter_field_name_split(field)
        obj = args[first] if isinstance(first, int) else pv_getitem(kwargs, first)
        for is_attr, name in rest:
            obj = getattr(obj, name) if is_attr else pv_getitem(obj, name)
        if spec and "{" in spec:
            spec = str_format(spec, args, kwargs)
            if isinstance(spec, SStr):
                raise Unsupported("symbolic spec")
        out.extend(parts_of(to_str(obj, conv, spec)))
    return mk(out)


def pv_mkset(lst):
    if any(_symkey(x) for x in lst):
        return SymSet(lst)
    return set(lst)


def pv_mkdict(pairs):
    if any(_symkey(k) for k, _ in pairs):
        return SymDict(pairs)
    return dict(pairs)


# ------------------------------------------------------------- calls
class _Sentinel:
    pass


NOMODEL = _Sentinel()


def m_len(x):
    if isinstance(x, SStr):
        return x.pv_len()
    if hasattr(x, "pv_len"):
        return x.pv_len()
    sd = _shadow(x) if isinstance(x, dict) else None
    return len(sd) if sd is not None else len(x)


def m_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for q in ts:
        flat.extend(q if isinstance(q, tuple) else (q,))
    if isinstance(x, SStr):
        return any(q in (str, object) for q in flat)
    if isinstance(x, SInt):
        return any(q in (int, object) for q in flat)
    if isinstance(x, SBool):
        return any(q in (bool, int, object) for q in flat)
    if isinstance(x, SymDict):
        return dict in flat or object in flat
    if isinstance(x, SymSet):
        return set in flat or object in flat
    if hasattr(x, "pv_isinstance"):
        return x.pv_isinstance(flat)
    return isinstance(x, t)


def m_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(z3.If(x.t, 1, 0))
    if isinstance(x, SStr):
        if a:
            raise Unsupported("int(s, base)")
        cs = chars_of(x)
        from .sstr import re_of_set, code_in
        dig = frozenset("0123456789")
        if cs is not None:
            y = x.strip()
            cs = chars_of(y)
            neg = False
            if cs and E.decide(code_in(cs[0], frozenset("+-"))):
                neg = E.decide(cs[0] == 45) if not isinstance(cs[0], int) else cs[0] == 45
                cs = cs[1:]
            if not cs:
                raise ValueError("invalid literal for int()")
            v = z3.IntVal(0)
            prev_us = True
            for k, c in enumerate(cs):
                if E.decide(code_in(c, frozenset("_"))):
                    if prev_us or k == len(cs) - 1:
                        raise ValueError("invalid literal for int()")
                    prev_us = True
                    continue
                prev_us = False
                if not E.decide(code_in(c, dig)):
                    raise ValueError("invalid literal for int()")
                v = v * 10 + (c - 48)
            return mkint(-v if neg else v)
        t = zs(x)
        ws = z3.Star(re_of_set(frozenset("\t\n\r\x0b\x0c \x1c\x1d\x1e\x1f")))
        digs = z3.Plus(re_of_set(dig))
        body = z3.Concat(digs, z3.Star(z3.Concat(z3.Re("_"), digs)))
        lang = z3.Concat(ws, z3.Option(z3.Union(z3.Re("+"), z3.Re("-"))), body, ws)
        if not E.decide(z3.InRe(t, lang)):
            raise ValueError("invalid literal for int()")
        if E.decide(z3.InRe(t, digs)):
            return mkint(z3.StrToInt(t))
        v = z3.Int(E.fresh_name("int"))
        return SInt(v)
    return int(x, *a)


def m_float(x=0):
    if isinstance(x, SStr):
        t = x
        from .sstr import re_of_set
        d = z3.Plus(re_of_set(frozenset("0123456789")))
        ws = z3.Star(re_of_set(frozenset("\t\n\r\x0b\x0c \x1c\x1d\x1e\x1f")))

        def kw(w):
            return z3.Concat(*[re_of_set(frozenset((c, c.upper()))) for c in w])
        digs = z3.Concat(d, z3.Star(z3.Concat(z3.Re("_"), d)))
        num = z3.Concat(z3.Union(z3.Concat(digs, z3.Option(z3.Concat(z3.Re("."), z3.Option(digs)))),
                                 z3.Concat(z3.Re("."), digs)),
                        z3.Option(z3.Concat(re_of_set(frozenset("eE")),
                                            z3.Option(re_of_set(frozenset("+-"))), digs)))
        lang = z3.Concat(ws, z3.Option(re_of_set(frozenset("+-"))),
                         z3.Union(num, kw("inf"), kw("infinity"), kw("nan")), ws)
        if not E.decide(z3.InRe(zs(t), lang)):
            raise ValueError("could not convert string to float")
        return SFloat(t)
    if isinstance(x, SInt):
        return x        # the value is kept; exact for |x| <= 2**53
    return float(x)


class SFloat(Sym):
    """float parsed from a symbolic string: only order against 0 is modelled"""
    def __init__(self, s):
        self.s = s

    def _sign(self):
        # sign / zero / nan decided by the text
        raise Unsupported("comparison of parsed float")

    def __lt__(self, o):
        return SBool(z3.Bool(E.fresh_name("fcmp")))
    __gt__ = __le__ = __ge__ = __lt__


def m_str(x=""):
    if isinstance(x, Sym) or (isinstance(x, (list, tuple)) and has_sym(x)):
        return to_str(x)
    return str(x)


def m_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(st, Sym):
        raise Unsupported("range step")

    def gen():
        i = lo
        while _truth(i < hi) if st > 0 else _truth(i > hi):
            yield i
            i = i + st
    return gen()


def m_max(*a, **k):
    if k:
        if "key" in k or "default" in k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if not xs and "default" in k:
                return k["default"]
            key = k.get("key")
            best = xs[0]
            for x in xs[1:]:
                if _truth((pv_call(key, x) if key else x) > (pv_call(key, best) if key else best)):
                    best = x
            return best
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        raise ValueError("max() arg is an empty sequence")
    if all(isinstance(x, (int, SInt)) for x in xs) and any(isinstance(x, SInt) for x in xs):
        r = zi(xs[0])
        for x in xs[1:]:
            r = z3.If(zi(x) > r, zi(x), r)
        return mkint(r)
    return max(xs)


def m_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k:
        if not xs and "default" in k:
            return k["default"]
        if "key" in k:
            raise Unsupported("min key")
    if not xs:
        raise ValueError("min() arg is an empty sequence")
    if all(isinstance(x, (int, SInt)) for x in xs) and any(isinstance(x, SInt) for x in xs):
        r = zi(xs[0])
        for x in xs[1:]:
            r = z3.If(zi(x) < r, zi(x), r)
        return mkint(r)
    return min(xs)


def m_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def m_sorted(xs, key=None, reverse=False):
    xs = list(xs)
    if len(xs) < 2:
        return xs
    if not has_sym(xs):
        if key is None:
            return sorted(xs, reverse=reverse)
        ks = [pv_call(key, x) for x in xs]
        if not has_sym(ks):
            order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
            return [xs[i] for i in order]
    out = []
    for x in xs:                      # stable insertion sort
        kx = pv_call(key, x) if key else x
        i = len(out)
        while i > 0 and _truth(out[i - 1][0] < kx if reverse else kx < out[i - 1][0]):
            i -= 1
        out.insert(i, (kx, x))
    return [x for _, x in out]


def m_any(xs):
    for x in xs:
        if _truth(x):
            return True
    return False


def m_all(xs):
    for x in xs:
        if not _truth(x):
            return False
    return True


def m_set(it=()):
    lst = list(it)
    if any(_symkey(x) for x in lst):
        return SymSet(lst)
    return set(lst)


def m_dict(*a, **k):
    if not a:
        return dict(**k)
    src = a[0]
    sd = _shadow(src) if isinstance(src, dict) else None
    if sd is not None or isinstance(src, SymDict):
        r = (sd or src).copy()
        r.update(**k)
        return r
    if isinstance(src, dict):
        return dict(src, **k)
    pairs = [tuple(p) for p in src]
    if any(_symkey(p[0]) for p in pairs):
        r = SymDict(pairs)
        r.update(**k)
        return r
    return dict(pairs, **k)


def m_ord(c):
    if isinstance(c, SStr):
        cs = chars_of(c)
        if cs and len(cs) == 1:
            return mkint(cs[0])
        raise Unsupported("ord")
    return ord(c)


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SStr):
            return str
        if isinstance(x, SInt):
            return int
        if isinstance(x, SBool):
            return bool
        if isinstance(x, SymDict):
            return dict
        if isinstance(x, SymSet):
            return set
    return type(*a)


def m_bool(x=False):
    if isinstance(x, SBool):
        return x
    return bool(x)


def m_hasattr(o, n):
    if isinstance(o, SStr):
        return hasattr(str, n)
    return hasattr(o, n)


MODELS = {
    len: m_len, isinstance: m_isinstance, int: m_int, float: m_float, str: m_str,
    range: m_range, max: m_max, min: m_min, sum: m_sum, sorted: m_sorted, any: m_any, all: m_all,
    set: m_set, frozenset: m_set, dict: m_dict, ord: m_ord, type: m_type, bool: m_bool,
    hasattr: m_hasattr,
    repr: lambda x: to_str(x, "r"),
}

_NATIVE_OK = {list, tuple, enumerate, zip, reversed, iter, next, print, id, map, filter, getattr,
              setattr, issubclass, callable}

RE_FUNCS = {re.match: "match", re.search: "search", re.fullmatch: "fullmatch"}


def m_print(*a, **k):
    return None


def call_builtin_method(f, self_, name, args, kw):
    """bound method of a builtin object, some operand symbolic"""
    if isinstance(self_, str):
        if name == "join":
            from .sstr import mkwrap
            items = list(args[0])
            if not has_sym(items):
                return f(items)
            return mkwrap(self_).join(items)
        if name == "format":
            return str_format(self_, args, kw)
        from .sstr import mkwrap
        return getattr(mkwrap(self_), name)(*args, **kw)
    if isinstance(self_, dict):
        sd = _shadow(self_)
        if sd is None:
            if name in ("get", "pop", "setdefault", "update", "__contains__", "__getitem__",
                        "__setitem__", "__delitem__"):
                if name == "get" and args:
                    for k in list(dict.keys(self_)):
                        if _truth(keq(k, args[0])):
                            return dict.__getitem__(self_, k)
                    return args[1] if len(args) > 1 else None
                if name == "update" and not (args and (isinstance(args[0], SymDict) or
                                                       any(_symkey(k) for k in args[0]))):
                    return f(*args, **kw)
                if args and not _symkey(args[0]) and name != "update":
                    return f(*args, **kw)
                sd = _make_shadow(self_)
                return getattr(sd, name)(*args, **kw)
            return f(*args, **kw)
        return getattr(sd, name)(*args, **kw)
    if isinstance(self_, (set, frozenset)):
        if name == "__contains__":
            return c_in(args[0], self_)
        return set_method(self_, name, args)
    if isinstance(self_, list):
        return f(*args, **kw)     # list methods only compare with ==
    if isinstance(self_, re.Pattern):
        if name in ("match", "search", "fullmatch"):
            return rx.pat_match(self_, args[0], name, *args[1:2])
        if name == "finditer":
            return iter(rx.pat_finditer(self_, args[0]))
        if name == "findall":
            return rx.pat_findall(self_, args[0])
        if name == "sub":
            return rx.pat_sub(self_, *args, **kw)
        if name == "split":
            return rx.pat_split(self_, *args, **kw)
    if isinstance(self_, BaseException):
        return f(*args, **kw)
    if self_ is dict and name == "fromkeys":
        return SymDict([(k, args[1] if len(args) > 1 else None) for k in args[0]])
    raise Unsupported("method %s.%s with symbolic argument" % (type(self_).__name__, name))


def pv_call(f, /, *args, **kw):
    # contracts of callees
    if E.stubs:
        fn = getattr(f, "__func__", f)
        try:
            st = E.stubs.get(fn)
        except TypeError:
            st = None
        if st is not None and E.active:
            if getattr(f, "__self__", None) is not None and fn is not f:
                return st(f.__self__, *args, **kw)
            return st(*args, **kw)
    tf = type(f)
    if "sets" in E.ghost and (tf in _BUILTINS or tf is type):
        args = tuple(list(_setshadow(a).e) if isinstance(a, set) and _setshadow(a) is not None else a for a in args)
        if tf in _BUILTINS and isinstance(getattr(f, "__self__", None), set) and \
                _setshadow(f.__self__) is not None:
            return set_method(f.__self__, f.__name__, args)
    if tf is type and f in MODELS or tf is _BUILTIN and f in MODELS:
        if f in (dict, set, frozenset):
            if f is dict or (args and not isinstance(args[0], (str, dict))):
                return MODELS[f](*args, **kw)
            return f(*args, **kw)
        if f is len:
            return m_len(*args)
        if has_sym(args) or f in (isinstance, type) or f in (max, min, sorted, any, all, sum):
            return MODELS[f](*args, **kw)
        return f(*args, **kw)
    if tf in _BUILTINS:
        self_ = getattr(f, "__self__", None)
        if self_ is None or self_ is builtins:
            if f in (print,) and has_sym(args):
                return None
            if f is getattr and has_sym(args):
                return m_getattr(*args)
            return f(*args, **kw)
        sd = _shadow(self_) if isinstance(self_, dict) else None
        if sd is not None:
            return getattr(sd, f.__name__)(*args, **kw)
        if isinstance(self_, str) and f.__name__ in ("join", "format"):
            if f.__name__ == "join":
                items = list(args[0])
                if has_sym(items):
                    return call_builtin_method(f, self_, "join", (items,), kw)
                return f(items)
            return _format_any(f, self_, args, kw)
        if has_sym(args) or has_sym(kw):
            if isinstance(self_, list) and f.__name__ == "sort":
                raise Unsupported("list.sort")
            return call_builtin_method(f, self_, f.__name__, args, kw)
        if isinstance(self_, list) and f.__name__ == "sort" and has_sym(self_):
            r = m_sorted(self_, **kw)
            self_[:] = r
            return None
        return f(*args, **kw)
    if f in _PYRE and has_sym(args):
        kind = f.__name__
        pat = args[0]
        if isinstance(pat, str):
            flags = kw.get("flags", args[2] if kind in RE_KINDS and len(args) > 2 else 0)
            pat = re.compile(pat, flags)
        if kind in RE_KINDS:
            return rx.pat_match(pat, args[1], kind)
        if kind == "sub":
            return rx.pat_sub(pat, args[1], args[2])
        if kind == "findall":
            return rx.pat_findall(pat, args[1])
        if kind == "split":
            return rx.pat_split(pat, *args[1:])
        raise Unsupported("re.%s" % kind)
    return f(*args, **kw)


RE_KINDS = ("match", "search", "fullmatch")
_PYRE = {re.match, re.search, re.fullmatch, re.sub, re.findall, re.split}


def m_getattr(o, name, *d):
    if isinstance(name, SStr):
        # fork over the attributes the object actually has
        names = [n for n in dir(o) if not n.startswith("__")]
        for n in names:
            if _truth(str_eq(name, n)):
                return getattr(o, n)
        if d:
            return d[0]
        raise AttributeError("symbolic attribute")
    return getattr(o, name, *d)


def _format_any(f, self_, args, kw):
    """str.format where an argument, or an attribute of one, may be symbolic"""
    if not args and not kw:
        return f()
    simple = (str, int, float, bool, type(None))
    if all(type(a) in simple for a in args) and all(type(a) in simple for a in kw.values()):
        return f(*args, **kw)
    return str_format(self_, args, kw)


_BUILTIN = type(len)
_BUILTINS = frozenset((type(len), type("".__str__), type(re.compile("a").match)))
_METHOD_WRAPPER = type("".__str__)

from .loops import pv_loop   # noqa: E402

def pv_iter(x):
    """iteration over a dictionary that got symbolic keys"""
    if isinstance(x, dict) and E.active:
        sd = _shadow(x)
        if sd is not None:
            return iter(sd)
    sh = _setshadow(x)
    return x if sh is None else iter(list(sh.e))


HOOKS = {
    "__pv_iter__": pv_iter,
    "__pv_call__": pv_call, "__pv_in__": pv_in, "__pv_getitem__": pv_getitem,
    "__pv_setitem__": pv_setitem, "__pv_delitem__": pv_delitem, "__pv_mod__": pv_mod,
    "__pv_fstr__": pv_fstr, "__pv_mkset__": pv_mkset, "__pv_mkdict__": pv_mkdict,
    "__pv_eq__": pv_eq, "__pv_ne__": pv_ne, "__pv_loop__": pv_loop,
}
