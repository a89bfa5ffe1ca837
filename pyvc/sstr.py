"""Symbolic strings.

A symbolic string is a sequence of parts: concrete text, single symbolic
characters (integer code terms) and atoms (z3 String terms of unknown length,
possibly with a known alphabet).  Operations on strings without atoms are
exact for ASCII; operations on atoms use the theory of strings, structural
facts (alphabet, non-emptiness) and uninterpreted lower/upper with axioms.
"""
import functools
import z3
from .core import (E, Sym, SBool, SInt, Unsupported, mkbool, mkint, zb, zi)

WS = frozenset("\t\n\r\x0b\x0c \x1c\x1d\x1e\x1f")
WSCODES = sorted(ord(c) for c in WS)
ASCII = frozenset(chr(i) for i in range(128))
IDCHARS = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
LOWIDCHARS = frozenset("abcdefghijklmnopqrstuvwxyz0123456789_")

LOWER = z3.Function("py_lower", z3.StringSort(), z3.StringSort())
UPPER = z3.Function("py_upper", z3.StringSort(), z3.StringSort())


class Atom:
    __slots__ = ("t", "charset", "nonempty", "tag")

    def __init__(self, t, charset=None, nonempty=False, tag=None):
        self.t, self.charset, self.nonempty, self.tag = t, charset, nonempty, tag

    def same(self, o):
        return isinstance(o, Atom) and self.t.eq(o.t)


class Ch:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


def mk(parts):
    """normalise parts; a concrete result is a plain str"""
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        elif isinstance(p, Ch):
            c = z3.simplify(p.c) if z3.is_expr(p.c) else p.c
            if z3.is_expr(c) and z3.is_int_value(c):
                c = c.as_long()
            if isinstance(c, int):
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + chr(c)
                else:
                    out.append(chr(c))
                continue
            p = Ch(c)
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def parts_of(x):
    if isinstance(x, SStr):
        return list(x.parts)
    if isinstance(x, str):
        return [x] if x else []
    raise Unsupported("not a string: %r" % type(x))


def chars_of(x):
    """list of codes (int or z3) if x has no atoms, else None"""
    if isinstance(x, str):
        return [ord(c) for c in x]
    out = []
    for p in x.parts:
        if isinstance(p, str):
            out.extend(ord(c) for c in p)
        elif isinstance(p, Ch):
            out.append(p.c)
        else:
            return None
    return out


def from_chars(codes):
    return mk([chr(c) if isinstance(c, int) else Ch(c) for c in codes])


def is_str(x):
    return isinstance(x, (str, SStr))


def zs(x):
    """z3 String term"""
    if isinstance(x, str):
        return z3.StringVal(x)
    ts = []
    for p in x.parts:
        if isinstance(p, str):
            ts.append(z3.StringVal(p))
        elif isinstance(p, Ch):
            ts.append(z3.StrFromCode(p.c))
        else:
            ts.append(p.t)
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


def code_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return a == b


def code_in(c, chars):
    """z3 Bool / bool: code c is one of chars (a set of 1-char strings)"""
    if isinstance(c, int):
        return z3.BoolVal(chr(c) in chars)
    codes = sorted(ord(x) for x in chars)
    # ranges
    rs = []
    for k in codes:
        if rs and rs[-1][1] == k - 1:
            rs[-1][1] = k
        else:
            rs.append([k, k])
    ts = [(c == a) if a == b else z3.And(c >= a, c <= b) for a, b in rs]
    return z3.Or(*ts) if ts else z3.BoolVal(False)


def low_code(c):
    if isinstance(c, int):
        return ord(chr(c).lower()) if len(chr(c).lower()) == 1 else c
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


def up_code(c):
    if isinstance(c, int):
        return ord(chr(c).upper()) if len(chr(c).upper()) == 1 else c
    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)


def lower_term(t):
    """z3 lower of a string term, with axioms"""
    t = z3.simplify(t)
    if z3.is_string_value(t):
        from .core import _unescape
        return z3.StringVal(_unescape(t.as_string()).lower())
    if z3.is_app(t) and t.decl().eq(LOWER):
        return t
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return z3.Concat(*[lower_term(a) for a in t.children()])
    r = LOWER(t)
    if E.active:
        E.approx = True       # models of py_lower are not exact
        E.add(z3.Length(r) == z3.Length(t))
        E.add(LOWER(r) == r)
    return r


def upper_term(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().eq(UPPER):
        return t
    r = UPPER(t)
    if E.active:
        E.approx = True
        E.add(z3.Length(r) == z3.Length(t))
    return r


def uncased(s, case):
    """z3 term u with s == u.<case>(), when s visibly is the image of one under lower/upper"""
    fn = LOWER if case == "lower" else UPPER
    f = str.lower if case == "lower" else str.upper
    ts, hit = [], False
    for p in parts_of(s):
        if isinstance(p, str):
            if f(p) != p:
                return None
            ts.append(z3.StringVal(p))
        elif isinstance(p, Ch):
            return None
        elif z3.is_app(p.t) and p.t.decl().eq(fn):
            hit = True
            ts.append(p.t.arg(0))
        elif p.charset is not None and all(f(c) == c for c in p.charset):
            ts.append(p.t)
        else:
            return None
    if not hit:
        return None
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


@functools.lru_cache(maxsize=None)
def ci_re(lit, case):
    """language of the texts whose lower (upper) case is lit"""
    f = {"lower": str.lower, "upper": str.upper, None: str}[case]
    rs = [re_of_set(frozenset(c for c in ASCII if f(c) == x)) for x in lit]
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def _recase(s, sl):
    """slice of a lower-case (upper-case) atom, as the lower case of a slice"""
    if len(s.parts) == 1 and isinstance(s.parts[0], Atom):
        p = s.parts[0]
        for fn in (LOWER, UPPER):
            if z3.is_app(p.t) and p.t.decl().eq(fn):
                r = SStr((Atom(p.t.arg(0), None, p.nonempty),))[sl]
                return r.lower() if fn is LOWER else r.upper()
    return None


def _cased_prefix(t, lit):
    """z3 Bool for t == lit where t is lower(y[0:k]), upper(y[0:k]) or y[0:k]; None otherwise"""
    case = None
    if z3.is_app(t) and (t.decl().eq(LOWER) or t.decl().eq(UPPER)):
        case = "lower" if t.decl().eq(LOWER) else "upper"
        if getattr(lit, case)() != lit:
            return z3.BoolVal(False)
        t = t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT) and z3.is_int_value(t.arg(1)) and \
            z3.is_int_value(t.arg(2)) and t.arg(1).as_long() == 0:
        k = t.arg(2).as_long()
        if len(lit) > k:
            return z3.BoolVal(False)
        y = t.arg(0)
        r = ci_re(lit, case) if lit else z3.Re(z3.StringVal(""))
        if len(lit) == k:
            return z3.InRe(y, z3.Concat(r, z3.Full(z3.ReSort(z3.StringSort()))))
        return z3.InRe(y, r)
    if case and lit:
        return z3.InRe(t, ci_re(lit, case))
    return None


def str_eq(a, b):
    """equality as bool / SBool"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    ca, cb = chars_of(a), chars_of(b)
    if ca is not None and cb is not None:
        if len(ca) != len(cb):
            return False
        return mkbool(z3.And(*[code_eq(x, y) for x, y in zip(ca, cb)]) if ca
                      else z3.BoolVal(True))
    pa, pb = parts_of(a), parts_of(b)
    # strip common concrete/identical prefix and suffix
    for side in (0, -1):
        while pa and pb:
            x, y = pa[side], pb[side]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if side == 0:
                    if x[:n] != y[:n]:
                        return False
                    x, y = x[n:], y[n:]
                else:
                    if x[len(x) - n:] != y[len(y) - n:]:
                        return False
                    x, y = x[:len(x) - n], y[:len(y) - n]
                for lst, v in ((pa, x), (pb, y)):
                    if v:
                        lst[side] = v
                    else:
                        lst.pop(side)
                continue
            if isinstance(x, Atom) and x.same(y):
                pa.pop(side), pb.pop(side)
                continue
            if isinstance(x, Ch) and isinstance(y, Ch) and x.c.eq(y.c):
                pa.pop(side), pb.pop(side)
                continue
            # literal against the alphabet of an atom
            for u, v in ((x, y), (y, x)):
                if isinstance(u, str) and isinstance(v, Atom) and v.charset is not None:
                    other = pb if v is y else pa
                    ch = u[0] if side == 0 else u[-1]
                    if v.nonempty and ch not in v.charset:
                        return False
                    if len(other) == 1 and len(pa if v is y else pb) == 1:
                        if any(c not in v.charset for c in u):
                            return False
            break
    if not pa and not pb:
        return True
    for p, q in ((pa, pb), (pb, pa)):
        if not p and any(isinstance(x, (str, Ch)) or (isinstance(x, Atom) and x.nonempty) for x in q):
            return False
    ta, tb = zs(mk(pa)) if pa else z3.StringVal(""), zs(mk(pb)) if pb else z3.StringVal("")
    # lower(x) of literals
    for p, q in ((pa, pb), (pb, pa)):
        if len(p) == 1 and isinstance(p[0], Atom) and len(q) == 1 and isinstance(q[0], str):
            x, lit = p[0], q[0]
            r = _cased_prefix(x.t, lit)
            if r is not None:
                if E.active and z3.is_app(x.t) and x.t.decl().eq(LOWER):
                    E.add((x.t == z3.StringVal(lit)) == r)
                return mkbool(z3.simplify(r)) if z3.is_false(r) else mkbool(r)
            if not (z3.is_app(x.t) and x.t.decl().eq(LOWER)) and E.active:
                E.add(z3.Implies(x.t == z3.StringVal(lit),
                                 LOWER(x.t) == z3.StringVal(lit.lower())))
    return mkbool(ta == tb)


_ALLOW_HASH = [0]


class SStr(Sym):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    # -- identity
    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __eq__(self, o):
        if not is_str(o):
            return False if not isinstance(o, Sym) else NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, (str, Ch)) or p.nonempty:
                return True
        return E.decide(z3.Or(*[p.t != z3.StringVal("") for p in self.parts]))

    def __repr__(self):
        return "<str %s>" % (zs(self),)

    def __str__(self):
        raise Unsupported("str() of symbolic string by native code")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic string")

    def pv_len(self):
        n = 0
        ts = []
        for p in self.parts:
            if isinstance(p, str):
                n += len(p)
            elif isinstance(p, Ch):
                n += 1
            else:
                ts.append(z3.Length(p.t))
        if not ts:
            return n
        return mkint(z3.Sum(*ts) + n if len(ts) > 1 else ts[0] + n)

    def __len__(self):
        n = self.pv_len()
        if isinstance(n, int):
            return n
        return n.__index__()

    # -- building
    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(list(self.parts) + parts_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(parts_of(o) + list(self.parts))

    def __mul__(self, n):
        return mk(list(self.parts) * int(n))
    __rmul__ = __mul__

    def __iter__(self):
        cs = chars_of(self)
        if cs is None:
            raise Unsupported("iteration over a string of unknown length")
        return iter([from_chars([c]) for c in cs])

    def _concat_index(self, i):
        """exact indexing when the position falls in known parts"""
        return None

    def __getitem__(self, ix):
        cs = chars_of(self)
        if cs is not None:
            if isinstance(ix, slice):
                lo = None if ix.start is None else int(ix.start)
                hi = None if ix.stop is None else int(ix.stop)
                st = None if ix.step is None else int(ix.step)
                return from_chars(cs[slice(lo, hi, st)])
            return from_chars([cs[int(ix)]])
        if isinstance(ix, slice):
            return self._slice(ix)
        if isinstance(ix, int):
            return self._at(ix)
        n = self.pv_len()
        if not (bool(ix < n) and bool(ix >= 0)):
            raise Unsupported("index may be out of range")
        return mk([Atom(z3.SubString(zs(self), zi(ix), z3.IntVal(1)), None, True)])

    def _at(self, i):
        seq = list(self.parts)
        if i < 0:
            k = -i
            for p in reversed(seq):
                if isinstance(p, str):
                    if k <= len(p):
                        return p[-k]
                    k -= len(p)
                elif isinstance(p, Ch):
                    if k == 1:
                        return mk([p])
                    k -= 1
                else:
                    break
            n = self.pv_len()
            if not bool(n >= -i):
                raise IndexError("string index out of range")
            pos = zi(n) + i
        else:
            k = i
            for p in seq:
                if isinstance(p, str):
                    if k < len(p):
                        return p[k]
                    k -= len(p)
                elif isinstance(p, Ch):
                    if k == 0:
                        return mk([p])
                    k -= 1
                else:
                    break
            n = self.pv_len()
            if not bool(n > i):
                raise IndexError("string index out of range")
            pos = z3.IntVal(i)
        cs = frozenset().union(*[p.charset if isinstance(p, Atom) and p.charset is not None
                                 else frozenset(p) if isinstance(p, str) else ASCII
                                 for p in seq])
        return mk([Atom(z3.SubString(zs(self), pos, z3.IntVal(1)), cs, True)])

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("strided slice of symbolic string")
        r = _recase(self, s)
        if r is not None:
            return r
        lo, hi = s.start, s.stop
        if lo in (None, 0) and hi is None:
            return self
        seq = list(self.parts)
        # structural prefix/suffix removal
        if isinstance(lo, int) and lo > 0 and hi is None:
            k, out = lo, list(seq)
            while k and out:
                p = out[0]
                if isinstance(p, str):
                    if len(p) <= k:
                        k -= len(p)
                        out.pop(0)
                    else:
                        out[0] = p[k:]
                        k = 0
                elif isinstance(p, Ch):
                    k -= 1
                    out.pop(0)
                else:
                    break
            if k == 0:
                return mk(out)
        if lo in (None, 0) and isinstance(hi, int) and hi >= 0:
            r = _take(seq, hi)
            if r is not None:
                return r[0]
        if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi:
            r = _take(seq, lo)
            if r is not None:
                r2 = _take(r[1], hi - lo)
                if r2 is not None:
                    return r2[0]
        if lo in (None, 0) and isinstance(hi, int) and hi < 0:
            r = _take_back(seq, -hi)
            if r is not None:
                return r[1]
        if isinstance(lo, int) and lo < 0 and hi is None:
            r = _take_back(seq, -lo)
            if r is not None:
                return r[0]
        if isinstance(lo, int) and lo > 0 and isinstance(hi, int) and hi < 0:
            r = _take(seq, lo)
            if r is not None:
                r2 = _take_back(r[1], -hi)
                if r2 is not None:
                    return r2[1]
        if isinstance(lo, SInt) and hi is None:
            # e.g. s[len(a):]
            acc = 0
            for j in range(len(seq) + 1):
                if isinstance(acc, SInt) and acc.t.eq(lo.t):
                    return mk(seq[j:])
                if j < len(seq):
                    acc = acc + mk([seq[j]]).__len__() if isinstance(seq[j], (Ch,)) else \
                        acc + _plen(seq[j])
        if lo is None:
            lo = 0
        if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo and 0 <= hi:
            # the theory's substring operation truncates exactly like a slice
            return mk([Atom(z3.SubString(zs(self), z3.IntVal(lo), z3.IntVal(max(hi - lo, 0))),
                            _union_charset(seq))]) if hi > lo else ""
        n = self.pv_len()

        def clamp(v, dflt):
            if v is None:
                return zi(dflt)
            v = zi(v)
            v = z3.If(v < 0, z3.If(v + zi(n) < 0, z3.IntVal(0), v + zi(n)), v)
            return z3.If(v > zi(n), zi(n), v)
        a, b = clamp(lo, 0), clamp(hi, n)
        ln = z3.If(b > a, b - a, z3.IntVal(0))
        cs = _union_charset(seq)
        return mk([Atom(z3.simplify(z3.SubString(zs(self), a, ln)), cs)])

    # -- case
    def lower(self):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p.lower())
            elif isinstance(p, Ch):
                out.append(Ch(low_code(p.c)))
            elif p.charset is not None and all(c == c.lower() for c in p.charset):
                out.append(p)
            else:
                cs = frozenset(c.lower() for c in p.charset) if p.charset is not None else None
                out.append(Atom(lower_term(p.t), cs, p.nonempty, p.tag))
        return mk(out)

    casefold = lower

    def upper(self):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p.upper())
            elif isinstance(p, Ch):
                out.append(Ch(up_code(p.c)))
            elif p.charset is not None and all(c == c.upper() for c in p.charset):
                out.append(p)
            else:
                cs = frozenset(c.upper() for c in p.charset) if p.charset is not None else None
                out.append(Atom(upper_term(p.t), cs, p.nonempty, p.tag))
        return mk(out)

    # -- white space
    def lstrip(self, chars=None):
        st = WS if chars is None else frozenset(chars)
        return self._strip(st, True, False)

    def rstrip(self, chars=None):
        st = WS if chars is None else frozenset(chars)
        return self._strip(st, False, True)

    def strip(self, chars=None):
        st = WS if chars is None else frozenset(chars)
        return self._strip(st, True, True)

    def _strip(self, st, left, right):
        seq = list(self.parts)
        for side, on in ((0, left), (-1, right)):
            while on and seq:
                p = seq[side]
                if isinstance(p, str):
                    q = p.lstrip("".join(st)) if side == 0 else p.rstrip("".join(st))
                    if q:
                        seq[side] = q
                        break
                    seq.pop(side)
                elif isinstance(p, Ch):
                    if E.decide(code_in(p.c, st)):
                        seq.pop(side)
                    else:
                        break
                else:
                    if p.charset is not None and not (p.charset & st):
                        if p.nonempty or E.decide(p.t != z3.StringVal("")):
                            break
                        seq.pop(side)
                        continue
                    # fresh decomposition p = ws ++ r (or r ++ ws)
                    wsre = re_of_set(st)
                    memo = E.ghost.setdefault("strip", {})
                    mk_ = (p.t.get_id(), side, frozenset(st))
                    if mk_ in memo:
                        r = memo[mk_][1]
                        if E.decide(r == z3.StringVal("")):
                            seq.pop(side)
                            continue
                        seq[side] = Atom(r, p.charset, True)
                        break
                    nm = E.fresh_name("strip")
                    w = z3.String(nm + ".w")
                    r = z3.String(nm + ".r")
                    if side == 0:
                        E.add(p.t == z3.Concat(w, r))
                    else:
                        E.add(p.t == z3.Concat(r, w))
                    memo[mk_] = (p.t, r)
                    E.add(z3.InRe(w, z3.Star(wsre)))
                    full = z3.Full(z3.ReSort(z3.StringSort()))
                    bad = z3.Concat(wsre, full) if side == 0 else z3.Concat(full, wsre)
                    E.add(z3.Not(z3.InRe(r, bad)))
                    if E.decide(r == z3.StringVal("")):
                        seq.pop(side)
                        continue
                    seq[side] = Atom(r, p.charset, True)
                    break
        return mk(seq)

    # -- tests
    def startswith(self, pre, start=0):
        if start:
            return self[start:].startswith(pre)
        if isinstance(pre, tuple):
            from .core import Or
            return Or(*[self.startswith(x) for x in pre])
        return self._affix(pre, 0)

    def endswith(self, pre):
        if isinstance(pre, tuple):
            from .core import Or
            return Or(*[self.endswith(x) for x in pre])
        return self._affix(pre, -1)

    def _affix(self, pre, side):
        ca, cb = chars_of(self), chars_of(pre)
        if ca is not None and cb is not None:
            if len(cb) > len(ca):
                return False
            sub = ca[:len(cb)] if side == 0 else ca[len(ca) - len(cb):]
            return mkbool(z3.And(*[code_eq(x, y) for x, y in zip(sub, cb)])
                          if cb else z3.BoolVal(True))
        if isinstance(pre, str):
            p = self.parts[side]
            if isinstance(p, str):
                n = min(len(p), len(pre))
                if side == 0 and p[:n] != pre[:n] or side == -1 and p[-n:] != pre[-n:]:
                    return False
                if len(p) >= len(pre):
                    return True
            elif isinstance(p, Atom) and p.charset is not None and p.nonempty:
                if (pre[0] if side == 0 else pre[-1]) not in p.charset:
                    return False
        if side == 0:
            return mkbool(z3.PrefixOf(zs(pre), zs(self)))
        return mkbool(z3.SuffixOf(zs(pre), zs(self)))

    def pv_contains(self, sub):
        ca, cb = chars_of(self), chars_of(sub)
        if ca is not None and cb is not None:
            if not cb:
                return True
            return mkbool(z3.Or(*[z3.And(*[code_eq(ca[i + j], cb[j]) for j in range(len(cb))])
                                  for i in range(len(ca) - len(cb) + 1)])
                          if len(ca) >= len(cb) else z3.BoolVal(False))
        if isinstance(sub, str) and len(sub) == 1:
            ts = []
            for p in self.parts:
                if isinstance(p, str):
                    if sub in p:
                        return True
                elif isinstance(p, Ch):
                    ts.append(p.c == ord(sub))
                elif p.charset is None or sub in p.charset:
                    ts.append(z3.Contains(p.t, z3.StringVal(sub)))
            return mkbool(z3.Or(*ts)) if ts else False
        if isinstance(sub, str):
            if any(isinstance(p, str) and sub in p for p in self.parts):
                return True
            cs = _union_charset(self.parts)
            if cs is not None and any(c not in cs for c in sub):
                return False
        return mkbool(z3.Contains(zs(self), zs(sub)))

    def __contains__(self, sub):
        return bool(self.pv_contains(sub))

    def _all(self, chars):
        cs = chars_of(self)
        if cs is not None:
            return mkbool(z3.And(*[code_in(c, chars) for c in cs])) if cs else False
        return mkbool(z3.InRe(zs(self), z3.Plus(re_of_set(chars))))

    def isspace(self):
        return self._all(WS)

    def isdigit(self):
        return self._all(frozenset("0123456789"))
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))

    def isalnum(self):
        return self._all(IDCHARS - {"_"})

    def isidentifier(self):
        cs = chars_of(self)
        if cs is None:
            first = re_of_set(IDCHARS - frozenset("0123456789"))
            return mkbool(z3.InRe(zs(self), z3.Concat(first, z3.Star(re_of_set(IDCHARS)))))
        if not cs:
            return False
        return mkbool(z3.And(code_in(cs[0], IDCHARS - frozenset("0123456789")),
                             *[code_in(c, IDCHARS) for c in cs[1:]]))

    # -- searching
    def find(self, sub, start=0, end=None):
        return self._find(sub, start, end)

    def index(self, sub, start=0, end=None):
        r = self._find(sub, start, end)
        if isinstance(r, SInt):
            if bool(r < 0):
                raise ValueError("substring not found")
            return r
        if r < 0:
            raise ValueError("substring not found")
        return r

    def _find(self, sub, start, end):
        ca, cb = chars_of(self), chars_of(sub)
        if ca is not None and cb is not None:
            start = int(start)
            end = len(ca) if end is None else min(int(end), len(ca))
            for i in range(max(start, 0), end - len(cb) + 1):
                t = z3.And(*[code_eq(ca[i + j], cb[j]) for j in range(len(cb))]) if cb \
                    else z3.BoolVal(True)
                if E.decide(t):
                    return i
            return -1
        if end is not None:
            return self[:end]._find(sub, start, None) if isinstance(self[:end], SStr) \
                else self[:end].find(sub, start)
        return mkint(z3.IndexOf(zs(self), zs(sub), zi(start)))

    def rfind(self, sub):
        ca, cb = chars_of(self), chars_of(sub)
        if ca is None or cb is None:
            raise Unsupported("rfind on atom")
        for i in range(len(ca) - len(cb), -1, -1):
            if E.decide(z3.And(*[code_eq(ca[i + j], cb[j]) for j in range(len(cb))])):
                return i
        return -1

    def count(self, sub):
        ca, cb = chars_of(self), chars_of(sub)
        if ca is None or cb is None or not cb:
            if len(sub) == 1 and isinstance(sub, str):
                n = 0
                for p in self.parts:
                    if isinstance(p, str):
                        n += p.count(sub)
                    elif isinstance(p, Ch):
                        n = n + SInt(z3.If(p.c == ord(sub), 1, 0))
                    elif p.charset is None or sub in p.charset:
                        raise Unsupported("count on atom")
                return n
            raise Unsupported("count")
        if len(cb) == 1:
            return mkint(z3.Sum(*[z3.If(code_eq(c, cb[0]), 1, 0) for c in ca]))
        i = n = 0
        while i + len(cb) <= len(ca):
            if E.decide(z3.And(*[code_eq(ca[i + j], cb[j]) for j in range(len(cb))])):
                n += 1
                i += len(cb)
            else:
                i += 1
        return n

    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if sep is None:
            return self._split_ws(maxsplit)
        if isinstance(sep, SStr):
            ca, cb = chars_of(self), chars_of(sep)
            if ca is None or cb is None or not cb or maxsplit >= 0:
                raise Unsupported("split on symbolic separator")
            out, cur, i = [], [], 0
            while i < len(ca):
                if i + len(cb) <= len(ca) and E.decide(
                        z3.And(*[code_eq(ca[i + j], cb[j]) for j in range(len(cb))])):
                    out.append(from_chars(cur))
                    cur = []
                    i += len(cb)
                else:
                    cur.append(ca[i])
                    i += 1
            out.append(from_chars(cur))
            return out
        out, cur = [], []
        n = 0
        seq = list(self.parts)
        if chars_of(self) is not None:
            cs = chars_of(self)
            i = 0
            cb = [ord(c) for c in sep]
            while i < len(cs):
                if ((maxsplit < 0 or n < maxsplit) and i + len(cb) <= len(cs) and
                        E.decide(z3.And(*[code_eq(cs[i + j], cb[j])
                                          for j in range(len(cb))]))):
                    out.append(from_chars(cur))
                    cur = []
                    n += 1
                    i += len(cb)
                else:
                    cur.append(cs[i])
                    i += 1
            out.append(from_chars(cur))
            return out
        while seq:
            p = seq.pop(0)
            if maxsplit >= 0 and n >= maxsplit:
                cur.append(p)
                continue
            if isinstance(p, str):
                pieces = p.split(sep, maxsplit - n if maxsplit >= 0 else -1)
                for k, q in enumerate(pieces):
                    if k:
                        out.append(mk(cur))
                        cur = []
                        n += 1
                    cur.append(q)
                if len(sep) > 1 and seq and any(pieces[-1].endswith(sep[:k])
                                                for k in range(1, len(sep))):
                    raise Unsupported("multi-character separator across parts")
            elif isinstance(p, Ch):
                if len(sep) == 1 and E.decide(p.c == ord(sep)):
                    out.append(mk(cur))
                    cur = []
                    n += 1
                else:
                    if len(sep) > 1:
                        raise Unsupported("multi-character separator")
                    cur.append(p)
            else:
                if p.charset is not None and not any(c in p.charset for c in sep):
                    cur.append(p)
                    continue
                if len(sep) > 1 and len(self.parts) > 1:
                    raise Unsupported("multi-character separator")
                if not E.decide(z3.Contains(p.t, z3.StringVal(sep))):
                    cur.append(p)
                    continue
                nm = E.fresh_name("split")
                a, b = z3.String(nm + ".a"), z3.String(nm + ".b")
                E.add(p.t == z3.Concat(a, z3.StringVal(sep), b))
                E.add(z3.Not(z3.Contains(a, z3.StringVal(sep))))
                cs = p.charset
                acs = (cs if cs is not None else ASCII) - (frozenset(sep) if len(sep) == 1 else frozenset())
                cur.append(Atom(a, acs if cs is not None or len(sep) == 1 else None))
                out.append(mk(cur))
                cur = []
                n += 1
                seq.insert(0, Atom(b, cs))
        out.append(mk(cur))
        return out

    def _split_ws(self, maxsplit):
        cs = chars_of(self)
        if cs is None:
            # structural only
            out, cur = [], []
            for p in self.parts:
                if isinstance(p, str):
                    toks = p.split()
                    if not toks or p[0] in WS:
                        if cur:
                            out.append(mk(cur))
                            cur = []
                    for k, q in enumerate(toks):
                        if k:
                            out.append(mk(cur))
                            cur = []
                        cur.append(q)
                    if toks and p[-1] in WS:
                        out.append(mk(cur))
                        cur = []
                elif isinstance(p, Atom) and p.charset is not None and not (p.charset & WS):
                    if not cur and not p.nonempty:
                        if not E.decide(p.t != z3.StringVal("")):
                            continue
                    cur.append(p)
                else:
                    raise Unsupported("split() on atom")
            if cur:
                out.append(mk(cur))
            return out
        out, cur = [], []
        for c in cs:
            if E.decide(code_in(c, WS)):
                if cur:
                    out.append(from_chars(cur))
                    cur = []
            else:
                cur.append(c)
        if cur:
            out.append(from_chars(cur))
        if maxsplit >= 0 and len(out) > maxsplit + 1:
            raise Unsupported("split() with maxsplit")
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        raise Unsupported("rsplit")

    def partition(self, sep):
        r = self.split(sep, 1)
        if len(r) == 1:
            return (r[0], "", "")
        return (r[0], sep, r[1])

    def replace(self, old, new, count=-1):
        cs = chars_of(self)
        if cs is None and isinstance(old, str):
            if all((isinstance(p, Atom) and p.charset is not None and
                    not any(c in p.charset for c in old)) or
                   (isinstance(p, str) and len(old) == 1) for p in self.parts):
                out = []
                for p in self.parts:
                    if isinstance(p, str):
                        pcs = p.split(old)
                        for k, q in enumerate(pcs):
                            if k:
                                out.extend(parts_of(new))
                            out.append(q)
                    else:
                        out.append(p)
                return mk(out)
            if count == 1:
                return mk([Atom(z3.Replace(zs(self), zs(old), zs(new)))])
            if len(old) < 2:
                raise Unsupported("replace on atom")
        pcs = self.split(old)
        if count >= 0:
            raise Unsupported("replace with count")
        out = []
        for k, q in enumerate(pcs):
            if k:
                out.extend(parts_of(new))
            out.extend(parts_of(q))
        return mk(out)

    def splitlines(self):
        if chars_of(self) is None:
            cs = _union_charset(self.parts)
            if cs is not None and "\n" not in cs and "\r" not in cs:
                return [self]
            raise Unsupported("splitlines")
        out = self.split("\n")
        if is_str(out[-1]) and not isinstance(out[-1], SStr) and out[-1] == "":
            out.pop()
        return out

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out.extend(self.parts)
            out.extend(parts_of(x))
        return mk(out)

    def title(self):
        raise Unsupported("title")

    def ljust(self, n, c=" "):
        k = self.pv_len()
        if isinstance(k, int) and isinstance(n, int):
            return self + c * max(0, n - k)
        raise Unsupported("ljust")

    def format(self, *a, **k):
        # parts which cannot contain braces stand for themselves
        from .hooks import str_format
        concrete, table = "", {}
        for p in self.parts:
            if isinstance(p, str):
                concrete += p
                continue
            if not (isinstance(p, Atom) and p.charset is not None and
                    not (set("{}") & set(p.charset))):
                raise Unsupported("symbolic format string")
            mark = chr(0xE000 + len(table))
            table[mark] = p
            concrete += mark
        out = []
        for p in parts_of(str_format(concrete, a, k)):
            if not isinstance(p, str):
                out.append(p)
                continue
            for ch in p:
                out.append(table.get(ch, ch))
        return mk(out)

    def __lt__(self, o):
        return self._ord(o, "lt")

    def __le__(self, o):
        return self._ord(o, "le")

    def __gt__(self, o):
        if not is_str(o):
            return NotImplemented
        return SStr._ord(o if isinstance(o, SStr) else mkwrap(o), self, "lt")

    def __ge__(self, o):
        if not is_str(o):
            return NotImplemented
        return SStr._ord(o if isinstance(o, SStr) else mkwrap(o), self, "le")

    def _ord(self, o, how):
        ca, cb = chars_of(self), chars_of(o)
        if ca is not None and cb is not None:
            # lexicographic
            r = z3.BoolVal(len(ca) < len(cb) if how == "lt" else len(ca) <= len(cb))
            for x, y in reversed(list(zip(ca, cb))):
                lt = z3.BoolVal(x < y) if isinstance(x, int) and isinstance(y, int) else x < y
                r = z3.Or(lt, z3.And(code_eq(x, y), r))
            return mkbool(r)
        ta, tb = zs(self), zs(o)
        return mkbool(ta < tb if how == "lt" else ta <= tb)


def _take(seq, k):
    """(first k characters, remaining parts) when the first k characters are known"""
    seq, out = list(seq), []
    while k and seq:
        p = seq[0]
        if isinstance(p, str):
            out.append(p[:k])
            if len(p) <= k:
                k -= len(p)
                seq.pop(0)
            else:
                seq[0] = p[k:]
                k = 0
        elif isinstance(p, Ch):
            out.append(p)
            k -= 1
            seq.pop(0)
        else:
            return None
    return mk(out), seq


def _take_back(seq, k):
    """(last k characters, what precedes them) when they are known"""
    seq, out = list(seq), []
    while k and seq:
        p = seq[-1]
        if isinstance(p, str):
            out.insert(0, p[-k:])
            if len(p) <= k:
                k -= len(p)
                seq.pop()
            else:
                seq[-1] = p[:-k]
                k = 0
        elif isinstance(p, Ch):
            out.insert(0, p)
            k -= 1
            seq.pop()
        else:
            return None
    return mk(out), mk(seq)


def mkwrap(s):
    return SStr((s,)) if s else SStr(())


def _plen(p):
    if isinstance(p, str):
        return len(p)
    if isinstance(p, Ch):
        return 1
    return SInt(z3.Length(p.t))


def _union_charset(parts):
    out = set()
    for p in parts:
        if isinstance(p, str):
            out |= set(p)
        elif isinstance(p, Atom) and p.charset is not None:
            out |= p.charset
        else:
            return None
    return frozenset(out)


@functools.lru_cache(maxsize=None)
def re_of_set(chars):
    codes = sorted(ord(c) for c in chars)
    rs = []
    for k in codes:
        if rs and rs[-1][1] == k - 1:
            rs[-1][1] = k
        else:
            rs.append([k, k])
    if not rs:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    ts = [z3.Re(z3.StringVal(chr(a))) if a == b else z3.Range(z3.StringVal(chr(a)), z3.StringVal(chr(b)))
          for a, b in rs]
    return ts[0] if len(ts) == 1 else z3.Union(*ts)
