"""Python regular expressions over symbolic strings.

Patterns are taken from the real compiled pattern objects (pattern text and
flags) and parsed with CPython's own parser.  Strings without atoms are
matched by an exact backtracking matcher (same priorities as CPython);
strings with atoms become regular-language membership constraints.
"""
import functools
import re
import re._constants as sc
import re._parser as sp
import z3
from .core import E, Unsupported, SBool, mkbool
from .sstr import (SStr, Atom, Ch, ASCII, WS, IDCHARS, chars_of, code_in, from_chars, mk,
                   re_of_set, zs, is_str, parts_of, code_eq, uncased)

DIGITS = frozenset("0123456789")


@functools.lru_cache(maxsize=None)
def parse(pattern, flags):
    return sp.parse(pattern, flags & ~re.UNICODE & ~re.DEBUG)


def _fold(chars, icase):
    if not icase:
        return frozenset(chars)
    return frozenset(c for c in ASCII if c in chars or c.lower() in chars or c.upper() in chars)


def _category(cat):
    base = {sc.CATEGORY_DIGIT: DIGITS, sc.CATEGORY_SPACE: WS, sc.CATEGORY_WORD: IDCHARS,
            sc.CATEGORY_NOT_DIGIT: ASCII - DIGITS, sc.CATEGORY_NOT_SPACE: ASCII - WS,
            sc.CATEGORY_NOT_WORD: ASCII - IDCHARS}
    return base[cat]


def charset_of(op, av, flags):
    """set of ASCII characters matched by a single-character item, or None"""
    ic = bool(flags & re.IGNORECASE)
    if op is sc.LITERAL:
        return _fold({chr(av)}, ic)
    if op is sc.NOT_LITERAL:
        return ASCII - _fold({chr(av)}, ic)
    if op is sc.ANY:
        return ASCII if flags & re.DOTALL else ASCII - {"\n"}
    if op is sc.IN:
        neg, out = False, set()
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                out |= _fold({chr(a)}, ic)
            elif o is sc.RANGE:
                out |= _fold({chr(x) for x in range(a[0], min(a[1], 127) + 1)}, ic)
            elif o is sc.CATEGORY:
                out |= _category(a)
            else:
                raise Unsupported("regex class %s" % o)
        return ASCII - out if neg else frozenset(out)
    return None


# ------------------------------------------------------------- z3 languages
_MAP = [None]


def _preimage(cs):
    """characters mapped into cs by the current character map"""
    f = _MAP[0]
    return cs if f is None else frozenset(c for c in ASCII if f(c) in cs)


EPS = z3.Re(z3.StringVal(""))
FULL = z3.Full(z3.ReSort(z3.StringSort()))


def _cat(*rs):
    rs = [r for r in rs if r is not None]
    if not rs:
        return EPS
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def to_re(items, flags, k):
    """language of items followed by the continuation language k"""
    if not items:
        return k
    (op, av), rest = items[0], items[1:]
    cs = charset_of(op, av, flags)
    if cs is not None:
        return _cat(re_of_set(_preimage(cs)), to_re(rest, flags, k))
    if op is sc.SUBPATTERN:
        _, add, dele, p = av
        fl = (flags | add) & ~dele
        if _simple(p):
            return _cat(plain_re(list(p), fl), to_re(rest, flags, k))
        return to_re(list(p), fl, to_re(rest, flags, k))
    if op is sc.BRANCH:
        kk = to_re(rest, flags, k)
        alts = [to_re(list(b), flags, kk) for b in av[1]]
        return alts[0] if len(alts) == 1 else z3.Union(*alts)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, p = av
        r = plain_re(list(p), flags)
        return _cat(_rep(r, lo, hi), to_re(rest, flags, k))
    if op is sc.AT:
        if av in (sc.AT_END, sc.AT_END_STRING):
            kk = to_re(rest, flags, k)
            if rest:
                raise Unsupported("$ inside a pattern")
            if av is sc.AT_END_STRING:
                return EPS
            return z3.Union(EPS, z3.Re(z3.StringVal("\n"))) if k is not EPS else EPS_OR_EPS
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return to_re(rest, flags, k)
        raise Unsupported("regex anchor %s" % av)
    if op is sc.ASSERT and av[0] == 1:
        look = to_re(list(av[1]), flags, FULL)
        return z3.Intersect(look, to_re(rest, flags, k))
    if op is sc.ASSERT_NOT and av[0] == 1:
        look = to_re(list(av[1]), flags, FULL)
        return z3.Intersect(z3.Complement(look), to_re(rest, flags, k))
    raise Unsupported("regex operator %s" % op)


EPS_OR_EPS = EPS


def _simple(items):
    for op, av in items:
        if op is sc.AT or op in (sc.ASSERT, sc.ASSERT_NOT, sc.GROUPREF):
            return False
        if op is sc.SUBPATTERN and not _simple(av[3]):
            return False
        if op is sc.BRANCH and not all(_simple(b) for b in av[1]):
            return False
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and not _simple(av[2]):
            return False
    return True


def plain_re(items, flags):
    if not _simple(items):
        raise Unsupported("anchor inside a repeated group")
    return to_re(items, flags, EPS) if items else EPS


def _rep(r, lo, hi):
    if hi is sc.MAXREPEAT:
        if lo == 0:
            return z3.Star(r)
        if lo == 1:
            return z3.Plus(r)
        return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
    if (lo, hi) == (0, 1):
        return z3.Option(r)
    return z3.Loop(r, lo, hi)


@functools.lru_cache(maxsize=None)
def language(pattern, flags, kind, case=None):
    """z3 regex of all strings s for which pattern.<kind>(s) succeeds (of all s for which
    pattern.<kind>(s.lower()) succeeds, and so on for s.upper())"""
    _MAP[0] = {None: None, "lower": str.lower, "upper": str.upper}[case]
    try:
        return _language(pattern, flags, kind)
    finally:
        _MAP[0] = None


def member(s, pattern, flags, kind):
    """z3 Bool: pattern.<kind>(s) succeeds"""
    for case in ("lower", "upper"):
        u = uncased(s, case)
        if u is not None:
            return z3.InRe(u, language(pattern, flags, kind, case))
    return z3.InRe(zs(s), language(pattern, flags, kind))


def _language(pattern, flags, kind):
    items = list(parse(pattern, flags))
    fl = flags | sp.parse(pattern, flags & ~re.UNICODE).state.flags
    if kind == "fullmatch":
        return to_re(items, fl, EPS)
    if kind == "match":
        return to_re(items, fl, FULL)
    if kind == "search":
        if items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return to_re(items, fl, FULL)
        return z3.Concat(FULL, to_re(items, fl, FULL))
    raise Unsupported(kind)


# ------------------------------------------------------------- exact matcher
class _M:
    """backtracking matcher over a list of codes; forks on symbolic tests"""

    def __init__(self, codes, flags):
        self.s, self.n, self.flags = codes, len(codes), flags
        self.rope = any(isinstance(c, Atom) for c in codes)
        self.groups = {}

    def _block(self, i, cs):
        """an atom at position i against one character of cs: no match is possible, or unknown"""
        a = self.s[i]
        if a.charset is None or not cs.isdisjoint(a.charset):
            raise Unsupported("part of an atom in a pattern")
        return False

    def _absorb(self, items, rest, lo, hi, i, flags, k, lazy):
        """repetition of one character set from position i on, over atoms as a whole"""
        cs = charset_of(items[0][0], items[0][1], flags) if len(items) == 1 else None
        if cs is None:
            raise Unsupported("repetition over an atom")
        nxt = charset_of(rest[0][0], rest[0][1], flags) if rest else None

        def step(j):
            """the element at j is absorbed: number of characters (at least), or None"""
            if j >= self.n:
                return None
            c = self.s[j]
            if isinstance(c, Atom):
                if c.charset is not None and c.charset <= cs:
                    return 1
                if c.charset is None or not cs.isdisjoint(c.charset):
                    raise Unsupported("part of an atom in a repetition")
                return None
            if isinstance(c, int):
                return 1 if (chr(c) in cs) else None
            return 1 if E.decide(code_in(c, cs)) else None

        def inside(j):
            """the continuation may begin inside the atom at j: excluded or unknown"""
            if isinstance(self.s[j], Atom) and (nxt is None or not nxt.isdisjoint(self.s[j].charset)):
                raise Unsupported("a repetition may end inside an atom")

        def over(j, cnt):
            if lazy and cnt >= lo and self.m(rest, j, flags, k):
                return True
            if hi is sc.MAXREPEAT or cnt < hi:
                d = step(j)
                if d is not None:
                    if isinstance(self.s[j], Atom) and (hi is not sc.MAXREPEAT or cnt + 1 < lo):
                        raise Unsupported("counted repetition over an atom")
                    if lazy:
                        inside(j)
                    if over(j + 1, cnt + d):
                        return True
                    if not lazy:
                        inside(j)
            return not lazy and cnt >= lo and self.m(rest, j, flags, k)
        return over(i, 0)

    def m(self, items, i, flags, k):
        """items at position i, continuation k(i) -> bool"""
        if not items:
            return k(i)
        (op, av), rest = items[0], items[1:]
        cs = charset_of(op, av, flags)
        if cs is not None:
            if i >= self.n:
                return False
            c = self.s[i]
            if isinstance(c, Atom):
                return self._block(i, cs)
            if isinstance(c, int):
                ok = (chr(c) in cs) if c < 128 else _nonascii(op, av, c, flags)
            else:
                ok = E.decide(code_in(c, cs))
            return ok and self.m(rest, i + 1, flags, k)
        if op is sc.SUBPATTERN:
            gid, add, dele, p = av
            fl = (flags | add) & ~dele
            old = self.groups.get(gid)

            def kk(j):
                prev = self.groups.get(gid)
                if gid is not None:
                    self.groups[gid] = (i, j)
                if self.m(rest, j, flags, k):
                    return True
                self.groups[gid] = prev
                return False
            if self.m(list(p), i, fl, kk):
                return True
            self.groups[gid] = old
            return False
        if op is sc.BRANCH:
            for b in av[1]:
                if self.m(list(b), i, flags, lambda j: self.m(rest, j, flags, k)):
                    return True
            return False
        if op is sc.MAX_REPEAT:
            lo, hi, p = av
            p = list(p)
            if self.rope and (len(p) == 1 and charset_of(p[0][0], p[0][1], flags) is not None):
                return self._absorb(p, rest, lo, hi, i, flags, k, False)

            def rep(j, cnt):
                if hi is sc.MAXREPEAT or cnt < hi:
                    if self.m(p, j, flags, lambda q: (q > j or cnt < lo) and rep(q, cnt + 1)):
                        return True
                return cnt >= lo and self.m(rest, j, flags, k)
            return rep(i, 0)
        if op is sc.MIN_REPEAT:
            lo, hi, p = av
            p = list(p)
            if self.rope and (len(p) == 1 and charset_of(p[0][0], p[0][1], flags) is not None):
                return self._absorb(p, rest, lo, hi, i, flags, k, True)

            def rep2(j, cnt):
                if cnt >= lo and self.m(rest, j, flags, k):
                    return True
                if hi is sc.MAXREPEAT or cnt < hi:
                    return self.m(p, j, flags, lambda q: (q > j or cnt < lo) and rep2(q, cnt + 1))
                return False
            return rep2(i, 0)
        if op is sc.AT:
            if av is sc.AT_END:
                ok = i == self.n or (i == self.n - 1 and self._nl(i))
                if not ok and flags & re.MULTILINE:
                    ok = i < self.n and self._nl(i)
            elif av is sc.AT_END_STRING:
                ok = i == self.n
            elif av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                a = i > 0 and self._w(self.s[i - 1])
                b = i < self.n and self._w(self.s[i])
                ok = (a != b) == (av is sc.AT_BOUNDARY)
            else:
                raise Unsupported("anchor %s" % av)
            return ok and self.m(rest, i, flags, k)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = av
            if d != 1:
                raise Unsupported("lookbehind")
            ok = self.m(list(p), i, flags, lambda j: True)
            return (ok == (op is sc.ASSERT)) and self.m(rest, i, flags, k)
        if op is sc.GROUPREF:
            g = self.groups.get(av)
            if g is None:
                return False
            ln = g[1] - g[0]
            if i + ln > self.n:
                return False
            if any(isinstance(self.s[q], Atom) for q in list(range(*g)) + list(range(i, i + ln))):
                raise Unsupported("back reference over an atom")
            for q in range(ln):
                if not E.decide(code_eq(self.s[g[0] + q], self.s[i + q])):
                    return False
            return self.m(rest, i + ln, flags, k)
        raise Unsupported("regex operator %s" % op)

    def _nl(self, i):
        c = self.s[i]
        if isinstance(c, Atom):
            if c.charset is None or "\n" in c.charset:
                raise Unsupported("end of line at an atom")
            return False
        return E_code(c, 10)

    @staticmethod
    def _w(c):
        if isinstance(c, Atom):
            if c.charset is not None and c.charset <= IDCHARS:
                return True
            if c.charset is not None and c.charset.isdisjoint(IDCHARS):
                return False
            raise Unsupported("word boundary at an atom")
        return chr(c) in IDCHARS if isinstance(c, int) else E.decide(code_in(c, IDCHARS))


def E_code(c, v):
    return c == v if isinstance(c, int) else E.decide(c == v)


def _nonascii(op, av, c, flags):
    """non-ASCII concrete character against a single-character item"""
    if op in (sc.ANY, sc.NOT_LITERAL):
        return True
    if op is sc.IN:
        return any(o is sc.NEGATE for o, _ in av)
    return False


class SMatch:
    """match object over a string without atoms"""

    def __init__(self, pat, s, codes, span, groups):
        self.re, self.string = pat, s
        self._c, self._span, self._g = codes, span, groups
        self.pos = 0

    def _sp(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return self._span
        if g > self.re.groups:
            raise IndexError("no such group")
        r = self._g.get(g)
        return r if r is not None else (-1, -1)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self._sp(g)
            out.append(None if a < 0 else from_elems(self._c[a:b]))
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        r = [self.group(i) for i in range(1, self.re.groups + 1)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self):
        return {k: self.group(v) for k, v in self.re.groupindex.items()}

    def _offset(self, k):
        if k < 0 or not any(isinstance(c, Atom) for c in self._c[:k]):
            return k
        from .hooks import m_len
        return m_len(from_elems(self._c[:k]))

    def start(self, g=0):
        return self._offset(self._sp(g)[0])

    def end(self, g=0):
        return self._offset(self._sp(g)[1])

    def span(self, g=0):
        return (self.start(g), self.end(g))


def from_elems(elems):
    return mk([chr(c) if isinstance(c, int) else c if isinstance(c, Atom) else Ch(c) for c in elems])


def elems_of(s):
    """characters and non-empty atoms of s (forks on the emptiness of atoms)"""
    codes = chars_of(s)
    if codes is not None:
        return codes
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.extend(ord(c) for c in p)
        elif isinstance(p, Ch):
            out.append(p.c)
        elif p.nonempty:
            out.append(p)
        elif E.decide(z3.Length(p.t) > 0):
            out.append(Atom(p.t, p.charset, True, p.tag))
    return out


def _flags(pat):
    return pat.flags


def match_at(pat, s, codes, i, full=False):
    m = _M(codes, pat.flags)
    end = []

    def fin(j):
        if full and j != len(codes):
            return False
        end.append(j)
        return True
    if m.m(list(parse(pat.pattern, pat.flags)), i, pat.flags, fin):
        return SMatch(pat, s, codes, (i, end[-1]), dict(m.groups))
    return None


class AMatch:
    """match object over a string with atoms: some decomposition consistent
    with the pattern (an over-approximation of the one CPython picks)"""

    def __init__(self, pat, s, kind):
        self.re, self.string, self.kind = pat, s, kind
        self._g = None

    def _decompose(self):
        if self._g is not None:
            return
        self._g = {}
        items = list(parse(self.re.pattern, self.re.flags))
        nm = E.fresh_name("grp")
        cnt = [0]
        flags = self.re.flags

        def var():
            cnt[0] += 1
            return z3.String("%s.%d" % (nm, cnt[0]))

        def walk(its, fl):
            ts = []
            for op, av in its:
                if op is sc.AT:
                    if av in (sc.AT_END,):
                        v = var()
                        E.add(z3.Or(v == z3.StringVal(""), v == z3.StringVal("\n")))
                        tails.append(v)
                    continue
                if op is sc.SUBPATTERN and av[0] is not None and _simple(av[3]):
                    f2 = (fl | av[1]) & ~av[2]
                    sub = list(av[3])
                    if any(o is sc.SUBPATTERN and a[0] is not None for o, a in sub):
                        st = walk(sub, f2)
                        t = z3.Concat(*st) if len(st) > 1 else st[0]
                    else:
                        t = var()
                        E.add(z3.InRe(t, plain_re(sub, f2)))
                    self._g[av[0]] = t
                    ts.append(t)
                    continue
                if _has_group([(op, av)]):
                    raise Unsupported("group inside repeat/branch on atom")
                v = var()
                E.add(z3.InRe(v, plain_re([(op, av)], fl)))
                ts.append(v)
            return ts
        tails = []
        ts = walk(items, flags)
        whole = z3.Concat(*ts) if len(ts) > 1 else (ts[0] if ts else z3.StringVal(""))
        self._g[0] = whole
        if self.kind == "search":
            raise Unsupported("search groups on atom")
        tail = tails if tails else ([] if self.kind == "fullmatch" else [z3.String(nm + ".rest")])
        tot = z3.Concat(whole, *tail) if tail else whole
        E.add(zs(self.string) == tot)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        self._decompose()
        out = [mk([Atom(self._g[g])]) if g in self._g else None for g in gs]
        return out[0] if len(out) == 1 else tuple(out)

    def groups(self):
        return tuple(self.group(i) for i in range(1, self.re.groups + 1))

    def start(self, g=0):
        if g == 0 and self.kind != "search":
            return 0
        raise Unsupported("match position on atom")

    def end(self, g=0):
        if g == 0:
            self._decompose()
            from .core import mkint
            return mkint(z3.Length(self._g[0]))
        raise Unsupported("match position on atom")


def _has_group(items):
    for op, av in items:
        if op is sc.SUBPATTERN and (av[0] is not None or _has_group(av[3])):
            return True
        if op is sc.BRANCH and any(_has_group(b) for b in av[1]):
            return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and _has_group(av[2]):
            return True
    return False


def pat_match(pat, s, kind="match", pos=0):
    codes = chars_of(s)
    if codes is not None:
        if kind == "search":
            for i in range(int(pos), len(codes) + 1):
                r = match_at(pat, s, codes, i)
                if r is not None:
                    return r
            return None
        return match_at(pat, s, codes, int(pos), full=(kind == "fullmatch"))
    if pos:
        raise Unsupported("pos on atom")
    # known alphabet: a required literal outside it cannot match
    if E.decide(member(s, pat.pattern, pat.flags, kind)):
        return AMatch(pat, s, kind)
    return None


def pat_finditer(pat, s):
    codes = elems_of(s)
    i, out = 0, []
    while i <= len(codes):
        r = None
        for j in range(i, len(codes) + 1):
            r = match_at(pat, s, codes, j)
            if r is not None:
                break
            if j < len(codes) and isinstance(codes[j], Atom) and _may_begin_in(pat, codes[j]):
                raise Unsupported("a match may begin inside an atom")
        if r is None:
            break
        out.append(r)
        a, b = r._span
        i = b if b > a else b + 1
    return out


def _may_begin_in(pat, atom):
    """a match of pat may begin with a character of the atom, or be empty (conservative)"""
    f = first_set(list(parse(pat.pattern, pat.flags)), pat.flags)
    return f is None or atom.charset is None or not f.isdisjoint(atom.charset)


def first_set(items, flags):
    """first characters of all matches; None if a match may be empty or it is unknown"""
    out = frozenset()
    for op, av in items:
        cs = charset_of(op, av, flags)
        if cs is not None:
            return out | cs
        if op is sc.SUBPATTERN:
            f = first_set(list(av[3]), (flags | av[1]) & ~av[2])
            if f is None:
                return None
            return out | f
        if op is sc.BRANCH:
            for b in av[1]:
                f = first_set(list(b), flags)
                if f is None:
                    return None
                out |= f
            return out
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            f = first_set(list(av[2]), flags)
            if f is None:
                return None
            out |= f
            if av[0] > 0:
                return out
            continue
        return None
    return None


def pat_findall(pat, s):
    out = []
    for m in pat_finditer(pat, s):
        if pat.groups == 0:
            out.append(m.group(0))
        elif pat.groups == 1:
            g = m.group(1)
            out.append("" if g is None else g)
        else:
            out.append(tuple("" if g is None else g for g in m.groups()))
    return out


def pat_sub(pat, repl, s, count=0):
    if isinstance(repl, str) and "\\" in repl:
        raise Unsupported("group template in sub")
    ms = pat_finditer(pat, s)
    if count:
        ms = ms[:count]
    out, last = [], 0
    codes = ms[0]._c if ms else elems_of(s)
    for m in ms:
        out.extend(parts_of(from_elems(codes[last:m._span[0]])))
        r = repl(m) if callable(repl) else repl
        out.extend(parts_of(r))
        last = m._span[1]
    out.extend(parts_of(from_elems(codes[last:])))
    return mk(out)


def pat_split(pat, s, maxsplit=0):
    if pat.groups:
        raise Unsupported("split with groups")
    out, last = [], 0
    ms = pat_finditer(pat, s)
    codes = ms[0]._c if ms else elems_of(s)
    for m in ms:
        a, b = m._span
        if b == a:
            raise Unsupported("empty match in split")
        out.append(from_elems(codes[last:a]))
        last = b
    out.append(from_elems(codes[last:]))
    return out
